#!/usr/bin/env python3
"""Pre-builds what can be built ahead: dependency crates of every stage (best effort, checks rebuild anyway)."""
import os, subprocess, sys
import check
from registry import PROPS


def main():
    seen = {}
    for prop, cfg in PROPS.items():
        for st in cfg["stages"]:
            if st.get("thorough_only") or st.get("kind") == "miri":
                continue
            if st.get("cpu") and not set(st["cpu"]) <= check.cpu_flags():
                continue
            seen.setdefault((st.get("kind", "native"), st.get("rustflags", ""), st["features"], st.get("bin", cfg["bin"]), bool(st.get("dev"))), (cfg, st))
    bad = 0
    for key, (cfg, st) in seen.items():
        rc, er = check.build(cfg, st)
        if rc != 0:
            bad += 1
            print("setup: build failed for", key, er[-1500:])
    rc, er, _ = check.build_viewer()
    if rc != 0:
        print("setup: build failed for the viewer", er[-1500:])
    # a build failure here shows again, with its own diagnosis, in the check itself
    print(f"setup: {len(seen) - bad} of {len(seen)} configurations built")
    return 0


if __name__ == "__main__":
    os.chdir(os.path.dirname(os.path.abspath(__file__)))
    sys.exit(main())
