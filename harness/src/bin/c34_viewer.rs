//! C34: the live viewer program, run with a stand-in for its window, against a re-read of its files.
use aether_monitors::fw::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::io::{BufRead, BufReader, Write};
use std::path::PathBuf;
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::mpsc::{channel, Receiver};
use std::time::{Duration, Instant};

static NEXT: AtomicU64 = AtomicU64::new(0);
fn root() -> PathBuf { std::env::temp_dir().join(format!("aether_c34_{}", std::process::id())) }
struct Dir(PathBuf);
impl Dir { fn new() -> Self { let p = root().join(NEXT.fetch_add(1, SeqCst).to_string()); fs::create_dir_all(&p).unwrap(); Dir(p) } }
impl Drop for Dir { fn drop(&mut self) { let _ = fs::remove_dir_all(&self.0); } }

// ---- the program ------------------------------------------------------------------------------
struct Viewer { p: Child, i: ChildStdin, o: Receiver<String> }
#[derive(Default, Debug)]
struct Shown { texts: Vec<String>, x_label: String, plots: usize, lines: Vec<(String, Vec<(f64, f64)>)>, notext: bool }
fn command(args: &[String]) -> Command { let mut c = Command::new(std::env::var("AETHER_VIEWER").expect("AETHER_VIEWER")); c.args(args).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()); c }
impl Viewer {
    fn start(args: &[String]) -> Viewer {
        let mut p = command(args).stderr(Stdio::null()).spawn().unwrap();
        let i = p.stdin.take().unwrap(); let out = p.stdout.take().unwrap(); let (tx, o) = channel();
        std::thread::spawn(move || for l in BufReader::new(out).lines() { let Ok(l) = l else { break }; if tx.send(l).is_err() { break } });
        Viewer { p, i, o }
    }
    fn ready(&mut self) -> bool { self.o.recv_timeout(Duration::from_secs(100)).is_ok_and(|l| l == "READY") }
    fn ask(&mut self, cmd: &str) -> Result<Shown, String> {
        if writeln!(self.i, "{cmd}").is_err() { return Err(format!("the program has ended: {:?}", self.p.wait())) }
        let mut s = Shown::default(); let t = Instant::now();
        let un = |s: &str| s.replace("%09", "\t").replace("%0A", "\n").replace("%0D", "\r").replace("%25", "%");
        let bits = |s: &str| f64::from_bits(u64::from_str_radix(s, 16).unwrap());
        loop {
            let l = match self.o.recv_timeout(Duration::from_secs(100).saturating_sub(t.elapsed())) { Ok(l) => l, Err(_) => { let w = self.p.try_wait(); return Err(format!("no answer to {cmd:?}, the program: {w:?}")) } };
            let f: Vec<&str> = l.split('\t').collect();
            match f[0] {
                "T" => s.texts.push(un(f[3])), "P" => { s.plots += 1; s.x_label = un(f[1]) }, "NOTEXT" => s.notext = true, "END" => return Ok(s),
                "L" => s.lines.push((un(f[1]), f[2..].chunks(2).map(|q| (bits(q[0]), bits(q[1]))).collect())),
                _ => {}
            }
        }
    }
}
impl Drop for Viewer { fn drop(&mut self) { let _ = self.p.kill(); let _ = self.p.wait(); } }

// ---- what should be shown ----------------------------------------------------------------------
#[derive(Clone, Copy, PartialEq)]
enum Kind { X, Y, Other }
const COLS: [(&str, Kind, Option<&str>); 10] = [
    ("pos_x[m]", Kind::X, Some("m")), ("pos_y[m]", Kind::Y, Some("m")), ("vel_x[m/s]", Kind::X, Some("m/s")), ("vel_y[km/s]", Kind::Y, Some("km/s")), ("alt", Kind::Other, None),
    ("temp[K]", Kind::Other, Some("K")), ("err_x_sigma", Kind::X, None), ("q_y", Kind::Y, None), ("range[m]", Kind::Other, Some("m")), ("ACC_X[m]", Kind::X, Some("m")),
];
fn kind(c: &str) -> Kind { COLS.iter().find(|k| k.0 == c).map_or(Kind::Other, |k| k.1) }
fn unit(cs: &[&String]) -> Option<&'static str> {
    let u: Vec<Option<&str>> = cs.iter().map(|c| COLS.iter().find(|k| k.0 == c.as_str()).unwrap().2).collect();
    if u.windows(2).all(|w| w[0] == w[1]) { u.first().copied().flatten() } else { None }
}
/// complete rows of the wanted columns; None: the header lacks one of them
fn rows(data: &[u8], x: &str, sel: &[String]) -> Option<Vec<(f64, Vec<f64>)>> {
    let end = data.iter().rposition(|b| *b == b'\n').map_or(0, |p| p + 1);
    let text = String::from_utf8_lossy(&data[..end]); let mut ls = text.lines().map(str::trim).filter(|l| !l.is_empty());
    let Some(h) = ls.next() else { return Some(vec![]) };
    let h: Vec<&str> = h.split(',').map(str::trim).collect(); let at = |n: &str| h.iter().position(|k| *k == n);
    let xi = at(x)?; let si: Option<Vec<usize>> = sel.iter().map(|s| at(s)).collect(); let si = si?;
    let val = |f: &[&str], i: usize| f.get(i).and_then(|v| v.trim().parse::<f64>().ok()).filter(|v| v.is_finite());
    Some(ls.filter_map(|l| { let f: Vec<&str> = l.split(',').collect(); Some((val(&f, xi)?, si.iter().map(|i| val(&f, *i)).collect::<Option<Vec<_>>>()?)) }).collect())
}
struct Source { path: PathBuf, name: String, cols: Vec<&'static str>, data: Option<Vec<u8>>, shown: Vec<(f64, Vec<f64>)>, scale: [f64; 10] }
struct World { d: Dir, src: Vec<Source>, pending: Vec<Source>, x: String, n: u64, style: usize, single: bool }
fn label(p: &PathBuf) -> String { p.components().rev().map(|c| c.as_os_str().to_string_lossy().into_owned()).find(|s| s.starts_with("run_")).unwrap_or_else(|| p.file_stem().unwrap().to_string_lossy().into_owned()) }
impl World {
    fn path(&mut self, r: &mut Rng) -> PathBuf { loop { self.n += 1; let k = r.below(if self.style == 2 { 4 } else { 900 }); let p = match self.style { 0 => self.d.0.join(format!("log{k}.csv")), 1 => self.d.0.join(format!("run_{k}.d/states/s.csv")), _ => self.d.0.join(format!("run_all/run_{k}/s{}.csv", r.below(3))) }; if !p.exists() { return p } } }
    fn pattern(&self) -> String { let d = self.d.0.display(); match self.style { 0 => format!("{d}/log*.csv"), 1 => format!("{d}/*/states/?.csv"), _ => format!("{d}/run_all/run_*/s[0-2].csv") } }
    fn header(&self, r: &mut Rng, cols: &[&str]) -> String { let mut h: Vec<String> = cols.iter().map(|c| c.to_string()).collect(); h.insert(r.below(h.len() + 1), self.x.clone()); h.join(*r.pick(&[",", ", "])) + *r.pick(&["\n", "\r\n"]) }
    fn lines(&mut self, r: &mut Rng, head: &str, scale: &[f64; 10], k: usize) -> String {
        let mut s = String::new();
        for _ in 0..k {
            self.n += 1;
            let mut f: Vec<String> = head.split(',').map(|c| { let c = c.trim(); if c == self.x { return format!("{}", self.n as f64 * 0.25) } let i = COLS.iter().position(|q| q.0 == c).unwrap_or(0); if scale[i] == 0.0 { "-7.25".into() } else { format!("{}", scale[i] * (r.normal() + i as f64)) } }).collect();
            if r.chance(0.12) { let k = r.below(f.len()); f[k] = (*r.pick(&["", "nan", "inf", "x", "1e400"])).into() }
            if r.chance(0.04) { f.truncate(1) }
            s += &f.join(","); s += "\n";
        }
        s
    }
    fn make(&mut self, r: &mut Rng, path: PathBuf, cols: &[&'static str]) -> Source {
        let scale = std::array::from_fn(|_| if r.chance(0.15) { 0.0 } else { r.logu(1e-3, 1e6) });
        let h = self.header(r, cols); let k = r.below(7); let body = self.lines(r, h.trim(), &scale, k);
        let data = (h + &body).into_bytes(); fs::create_dir_all(path.parent().unwrap()).unwrap(); fs::write(&path, &data).unwrap();
        Source { name: label(&path), path, cols: cols.to_vec(), data: Some(data), shown: vec![], scale }
    }
}

fn session(r: &mut Rng, c: &mut Case, discover: bool) {
    let d = Dir::new(); let style = r.below(3);
    let mut w = World { d, src: vec![], pending: vec![], x: (*r.pick(&["time", "t[s]", "Δt"])).into(), n: 0, style, single: !discover && r.chance(0.2) };
    let mut pool: Vec<&'static str> = COLS.iter().map(|k| k.0).collect(); r.shuffle(&mut pool); pool.truncate(1 + r.below(6));
    let files = if w.single { 1 } else { 1 + r.below(3) };
    for _ in 0..files { let p = w.path(r); let s = w.make(r, p, &pool); w.src.push(s); }
    if w.style == 0 && r.chance(0.3) { fs::create_dir_all(w.d.0.join("log_0.csv")).unwrap(); c.ev("folder with a matching name") }
    w.src.sort_by(|a, b| a.path.cmp(&b.path));
    let given: Vec<String> = { let mut g: Vec<String> = pool.iter().map(|s| s.to_string()).collect(); r.shuffle(&mut g); g.truncate(r.below(4)); g };
    let mut args = vec![if w.single { w.src[0].path.display().to_string() } else { w.pattern() }, w.x.clone()];
    if !given.is_empty() { args.push(given.join(*r.pick(&[",", " , ", ",,"]))) }
    let (hz, wait) = *r.pick(&[(Some("1e9"), 0), (Some("1e9"), 0), (Some("1e7"), 0), (Some("inf"), 0), (Some("25"), 42), (None, 205)]);
    if let Some(h) = hz { args.push(h.into()) }
    let mut v = Viewer::start(&args);
    if !c.ok(v.ready(), "start", || format!("the program did not start with {args:?}: {:?}", v.p.try_wait())) { return }
    // ticks of the two lists, and the columns in the order the program keeps them
    let (mut tx, mut ty): (BTreeSet<String>, BTreeSet<String>) = (BTreeSet::new(), BTreeSet::new());
    let mut sel: Vec<String> = given.clone(); let mut first = given.is_empty();
    for g in &given { if kind(g) == Kind::X { tx.insert(g.clone()); } else { ty.insert(g.clone()); } }
    if !first { for s in &mut w.src { s.shown = rows(s.data.as_ref().unwrap(), &w.x, &sel).unwrap() } }
    let mut log: Vec<String> = vec![format!("started with {args:?}")];
    c.ev(if given.is_empty() { "started without columns" } else { "started with columns" });
    let steps = if discover { 4 } else if wait > 100 { 5 } else { 14 };
    for step in 0..steps {
        // something happens to the files
        for _ in 0..if discover && step % 2 == 1 { 0 } else { r.below(3) } {
            let k = r.below(w.src.len()); let scale = w.src[k].scale; let path = w.src[k].path.clone();
            match (r.below(10), w.src[k].data.clone()) {
                (0..=5, Some(mut data)) => {
                    let text = String::from_utf8_lossy(&data).into_owned(); let Some(h) = text.lines().find(|l| !l.trim().is_empty()).map(str::to_string) else { continue };
                    let n = 1 + r.below(4); let mut add = w.lines(r, &h, &scale, n);
                    if !data.ends_with(b"\n") { add.insert(0, '\n') }
                    if r.chance(0.25) { let cut = r.below(add.len()); add.truncate(cut) }
                    fs::OpenOptions::new().append(true).open(&path).unwrap().write_all(add.as_bytes()).unwrap(); data.extend(add.bytes()); w.src[k].data = Some(data); log.push(format!("append {add:?} to {}", w.src[k].name)); c.ev("append");
                }
                (6..=7, old) => { // another file under the name, perhaps without some of the columns
                    let mut cols = pool.clone(); r.shuffle(&mut cols); if k > 0 && r.chance(0.5) { cols.truncate(r.below(cols.len() + 1)); }
                    if old.is_some() { w.n += 1; fs::hard_link(&path, w.d.0.join(format!("keep{}", w.n))).unwrap(); fs::remove_file(&path).unwrap() }
                    let s = w.make(r, path, &cols); if cols.len() < pool.len() { c.ev("file without some columns") }
                    log.push(format!("replace {} by {:?}", s.name, String::from_utf8_lossy(s.data.as_ref().unwrap()))); let shown = std::mem::take(&mut w.src[k].shown); w.src[k] = Source { shown, ..s }; c.ev("replace");
                }
                (8, Some(_)) if k > 0 => { w.n += 1; fs::hard_link(&path, w.d.0.join(format!("keep{}", w.n))).unwrap(); fs::remove_file(&path).unwrap(); w.src[k].data = None; log.push(format!("delete {}", w.src[k].name)); c.ev("delete") }
                _ => {}
            }
        }
        let alone = discover && step > 0 && step % 2 == 1; // a click judged on its own: which files can be loaded must not change between
        if discover && !alone && (step > 0 || !first) { for _ in 0..1 + r.below(2) {
            let p = w.path(r); let mut cols = pool.clone(); r.shuffle(&mut cols); if r.chance(0.4) { cols.truncate(r.below(cols.len() + 1)) }
            let s = w.make(r, p, &cols); log.push(format!("new file {:?} {:?}", s.path, String::from_utf8_lossy(s.data.as_ref().unwrap()))); w.pending.push(s); c.ev("new file");
        } }
        let mut pause = wait;
        let click = step > 0 && pool.len() <= 4 && if discover { alone } else { r.chance(0.5) }; // more do not fit into the list
        let mut cleared = false;
        let mut ask = "frame".to_string();
        if click {
            let xl: Vec<&str> = w.src[0].cols.iter().copied().filter(|q| kind(q) == Kind::X).collect();
            let both = !xl.is_empty() && r.chance(0.5); let q = if both { *r.pick(&xl) } else { *r.pick(&pool) };
            // a column of the X list is written twice, in the X list first
            let nth = (kind(q) == Kind::X && !both) as usize; ask = format!("click\t{q}\t{nth}");
            let set = if both { &mut tx } else { &mut ty }; if !set.remove(q) { set.insert(q.to_string()); }
            sel = tx.union(&ty).cloned().collect(); cleared = true; log.push(format!("{ask:?}")); c.ev("ticks changed");
        }
        if !w.pending.is_empty() { pause = 1050 }
        if pause > 0 { std::thread::sleep(Duration::from_millis(pause)) }
        let mut got = v.ask(&ask);
        if click && !w.pending.is_empty() && got.as_ref().is_ok_and(|g| !g.notext) { // the choice may make a file loadable
            std::thread::sleep(Duration::from_millis(1050)); got = v.ask("frame")
        }
        let tell = |m: String| format!("{m}; {}", log[log.len().saturating_sub(12)..].join(" | "));
        let got = match got { Ok(g) => g, Err(e) => { c.fail("ended", tell(e)); return } };
        if !c.ok(!got.notext, "list-entry", || tell("the column to tick is not in the list".into())) { return }
        let fresh = first;
        if first { // nothing chosen: the first X component and the first column
            let h: Vec<String> = String::from_utf8_lossy(w.src[0].data.as_ref().unwrap()).lines().next().unwrap().split(',').map(|s| s.trim().to_string()).filter(|s| *s != w.x).collect();
            if let Some(f) = h.iter().find(|q| kind(q) == Kind::X) { tx.insert(f.clone()); }
            if let Some(f) = h.first() { ty.insert(f.clone()); }
            // the choice was made before the click was seen
            sel = tx.union(&ty).cloned().collect(); first = false; cleared = true;
        }
        // newly found files, in order
        w.pending.sort_by(|a, b| a.path.cmp(&b.path));
        let (ok, no): (Vec<_>, Vec<_>) = std::mem::take(&mut w.pending).into_iter().partition(|s| rows(s.data.as_ref().unwrap(), &w.x, &sel).is_some());
        if !ok.is_empty() { c.evn("files found", ok.len() as u64) } if !no.is_empty() { c.ev("files refused") }
        w.src.extend(ok); w.pending = no;
        for s in &mut w.src { match &s.data {
            Some(data) => { let v = rows(data, &w.x, &sel); if v.is_none() { c.ev("unusable file") } s.shown = v.unwrap_or_default() }
            None => { c.ev("missing file"); if cleared { s.shown.clear() } }
        } }
        // ranges of the two groups
        let group = |t: &BTreeSet<String>| -> (f64, f64) { let (mut a, mut b) = (f64::INFINITY, f64::NEG_INFINITY); for s in &w.src { for (_, ys) in &s.shown { for (q, y) in sel.iter().zip(ys) { if t.contains(q) { a = a.min(*y); b = b.max(*y) } } } } if a > b { (0.0, 1.0) } else if a == b { (a, a + 1.0) } else { (a, b) } };
        let (gx, gy) = (group(&tx), group(&ty));
        let dual = !tx.is_empty() && !ty.is_empty() && unit(&tx.iter().collect::<Vec<_>>()) != unit(&ty.iter().collect::<Vec<_>>());
        let mut want: BTreeMap<String, Vec<Vec<(f64, f64, f64)>>> = BTreeMap::new(); let mut n = 0;
        for s in &w.src { if s.shown.is_empty() { continue } for (k, q) in sel.iter().enumerate() {
            let pts = s.shown.iter().map(|(x, ys)| { let y = ys[k]; if dual && ty.contains(q) { let t = (y - gy.0) / (gy.1 - gy.0); let d = gx.1 - gx.0; (*x, gx.0 + t * d, 1e-15 * (gx.0.abs() + 4.0 * d.abs())) } else { (*x, y, 0.0) } }).collect();
            want.entry(format!("{}::{q}", s.name)).or_default().push(pts); n += 1;
        } }
        c.evn("lines expected", n); if dual && n > 0 { c.ev("scaled frames") } c.ev("frames judged");
        let total: usize = w.src.iter().map(|s| s.shown.len()).sum();
        let state = || format!("x {:?}, ticked {tx:?} and {ty:?}, columns {sel:?}, files {:?}", w.x, w.src.iter().map(|s| (&s.name, s.shown.len(), s.data.is_some())).collect::<Vec<_>>());
        c.ok(got.plots == 1 && got.x_label == w.x, "plot", || tell(format!("{} plots, abscissa {:?}; {}", got.plots, got.x_label, state())));
        let names: Vec<&String> = { let mut v: Vec<_> = got.lines.iter().map(|l| &l.0).collect(); v.sort(); v };
        let wnames: Vec<&String> = want.iter().flat_map(|(k, v)| v.iter().map(move |_| k)).collect();
        if !c.ok(names == wnames, "line-names", || tell(format!("lines {names:?} instead of {wnames:?}; {}", state()))) { return }
        for (name, pts) in &got.lines {
            let cand = want.get_mut(name).unwrap(); c.mix(hash_str(name) ^ pts.len() as u64);
            let fit = |w: &Vec<(f64, f64, f64)>| w.len() == pts.len() && w.iter().zip(pts).all(|(w, p)| w.0.to_bits() == p.0.to_bits() && if w.2 == 0.0 { w.1.to_bits() == p.1.to_bits() } else { (w.1 - p.1).abs() <= w.2 });
            match cand.iter().position(fit) { Some(i) => { cand.remove(i); } None => { c.fail(if dual { "scaled-points" } else { "line-points" }, tell(format!("line {name:?} is {pts:?} instead of {cand:?}; {}", state()))); return } }
        }
        for t in [format!("Points(total): {total}"), format!("Sources: {}", w.src.len())] { c.ok(fresh || got.texts.contains(&t), "counts", || tell(format!("{t:?} is not among {:?}; {}", got.texts, state()))); }
        let ranges = format!("X range [{:.6}, {:.6}] | Y range [{:.6}, {:.6}]", gx.0, gx.1, gy.0, gy.1);
        let said = got.texts.iter().find(|t| t.starts_with("X range"));
        c.ok(said == dual.then_some(&ranges), "ranges", || tell(format!("{said:?}, dual {dual} {ranges}; {}", state())));
    }
}

/// starts that must be refused or explained
fn refusals(r: &mut Rng, c: &mut Case) {
    let d = Dir::new(); let f = d.0.join("a.csv"); fs::write(&f, "time,v\n0,1\n").unwrap();
    let p = |s: &str| d.0.join(s).display().to_string();
    let k = r.below(6); c.mix(k as u64);
    let (args, good): (Vec<String>, bool) = match k {
        0 => (vec![p("b*.csv"), "time".into()], false),
        1 => (vec![p("*.csv"), "Time".into(), "v".into()], false),
        2 => (vec![p("?.csv"), "time".into(), "v,w".into()], false),
        3 => (vec![p("*.csv"), "time".into(), "v".into(), "-5".into()], true),
        4 => (vec![p("none yet.csv"), "time".into(), "v".into()], true),
        _ => (vec![p("a.csv"), "time".into(), "0".into()], true),
    };
    let out = { let mut ch = command(&args).spawn().unwrap(); let _ = ch.stdin.take().unwrap().write_all(b"frame\n"); ch.wait_with_output().unwrap() };
    let said = String::from_utf8_lossy(&out.stdout).into_owned(); let err = String::from_utf8_lossy(&out.stderr).into_owned();
    let ok = if good { out.status.success() && said.ends_with("END\n") } else { out.status.code() == Some(1) && said.is_empty() && !err.contains("panicked") };
    c.ok(ok, "start", || format!("{args:?} gave {:?} {said:?} {err:?}", out.status)); c.ev(if good { "accepted starts" } else { "refused starts" });
}

fn main() {
    let mut x = Ctx::from_args("C34");
    x.family("session", 400, 6000, |r, c| session(r, c, false));
    x.family("discovery", 160, 2000, |r, c| session(r, c, true));
    x.family("starts", 60, 200, refusals);
    for (e, n) in [("frames judged", 2000), ("lines expected", 4000), ("scaled frames", 150), ("ticks changed", 800), ("append", 500), ("replace", 150), ("delete", 40), ("missing file", 40), ("unusable file", 40), ("new file", 60), ("files found", 40), ("files refused", 5), ("refused starts", 15), ("accepted starts", 15), ("started with columns", 100), ("started without columns", 80)] { x.require(e, n) }
    let _ = fs::remove_dir_all(root());
    x.finish()
}
