//! C26: the live CSV follower against a full re-read of the file, over random file histories.
use aether_monitors::fw::*;
use aether_viz::realtime::{CsvRealtimeConfig, CsvRealtimePlotter};
use std::fs;
use std::io::Write;
use std::os::unix::fs::symlink;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

static NEXT: AtomicU64 = AtomicU64::new(0);
fn root() -> PathBuf { std::env::temp_dir().join(format!("aether_c26_{}", std::process::id())) }
struct Dir(PathBuf);
impl Dir { fn new() -> Self { let p = root().join(NEXT.fetch_add(1, SeqCst).to_string()); fs::create_dir_all(&p).unwrap(); Dir(p) } }
impl Drop for Dir { fn drop(&mut self) { let _ = fs::remove_dir_all(&self.0); } }

/// what a complete re-read of `data` shows
struct View { x: Vec<f64>, y: Vec<Vec<f64>>, lines: usize, bad: bool }
fn reread(data: &[u8], header: bool, xc: &str, yc: &[String]) -> View {
    let mut v = View { x: vec![], y: vec![vec![]; yc.len()], lines: 0, bad: false };
    let end = data.iter().rposition(|b| *b == b'\n').map_or(0, |p| p + 1);
    let mut idx: Option<(usize, Vec<usize>)> = None;
    for raw in data[..end].split(|b| *b == b'\n') {
        let text = String::from_utf8_lossy(raw); let line = text.trim();
        if line.is_empty() { continue }
        v.lines += 1;
        let f: Vec<&str> = line.split(',').map(|s| s.trim()).collect();
        if v.bad { continue }
        if idx.is_none() {
            let find = |n: &str| if header { f.iter().position(|h| *h == n) } else { n.parse().ok() };
            let ys: Option<Vec<usize>> = yc.iter().map(|n| find(n)).collect();
            match (find(xc), ys) { (Some(x), Some(y)) => idx = Some((x, y)), _ => { v.bad = true; continue } }
            if header { continue }
        }
        let (xi, yi) = idx.as_ref().unwrap();
        let num = |i: usize| f.get(i).and_then(|s| s.parse::<f64>().ok()).filter(|v| v.is_finite());
        let (Some(x), Some(ys)) = (num(*xi), yi.iter().map(|i| num(*i)).collect::<Option<Vec<f64>>>()) else { continue };
        v.x.push(x);
        for (c, y) in v.y.iter_mut().zip(ys) { c.push(y) }
    }
    v
}
fn cap(mut v: View, m: Option<usize>) -> View {
    if let Some(m) = m { if v.x.len() > m { let d = v.x.len() - m; v.x.drain(..d); for y in &mut v.y { y.drain(..d); } } }
    v
}

const NAMES: [&str; 6] = ["time", "value", "höhe", "温度", "b", "c c"];
fn header(r: &mut Rng, bad: bool) -> Vec<u8> {
    let mut n: Vec<&str> = NAMES.to_vec(); r.shuffle(&mut n);
    if bad { let k = 1 + r.below(3); n.truncate(NAMES.len() - k) }
    if r.chance(0.1) { n.push("value") }
    let sep = *r.pick(&[",", " , ", ",\t"]);
    let mut s = n.join(sep); s.push_str(*r.pick(&["\n", "\r\n", " \n"]));
    let mut b = if r.chance(0.2) { b" \n\n".to_vec() } else { vec![] };
    b.extend(s.bytes()); b
}
fn row(r: &mut Rng, n: &mut u64) -> Vec<u8> {
    *n += 1;
    let mut f: Vec<String> = (0..6 + if r.chance(0.1) { r.below(3) } else { 0 }).map(|k| match r.below(6) {
        0 => format!("{}", *n * 10 + k as u64), 1 => format!(" {:e} ", r.normal()), 2 => format!("+{}.", r.below(100)), 3 => "-0.0".into(), 4 => format!("{}", r.wild(1e3)), _ => format!("\t{:.3}", r.normal()),
    }).collect();
    let mut tail = (*r.pick(&["\n", "\n", "\r\n", " \n", "\n\n", "\n \r\n"])).as_bytes().to_vec();
    if r.chance(0.3) {
        let k = r.below(f.len());
        match r.below(7) {
            0 => f[k] = (*r.pick(&["", "nan", "inf", "-infinity", "1e999", "1,5", "0x10", "1_000", "--1", "1 2", "NaN", "\"3\""])).into(),
            1 => f.truncate(k),
            2 => f[k] = (*r.pick(&["µ", "日本語", "🚀", "٣"])).into(),
            3 => { let mut b = f[..k].join(",").into_bytes(); b.extend([b',', 0xff, 0xe2, 0x28, b',', b'1']); b.append(&mut tail); return b }
            4 => return b"# comment, 1, 2, 3, 4, 5\n".to_vec(),
            5 => return NAMES.join(",").into_bytes().into_iter().chain(tail).collect(),
            _ => f.push("😀".into()),
        }
    }
    let mut b = f.join(",").into_bytes(); b.append(&mut tail); b
}
fn chunk(r: &mut Rng, n: &mut u64, rows: usize) -> Vec<u8> { (0..rows).flat_map(|_| row(r, n)).collect() }

struct World { d: Dir, path: PathBuf, data: Option<Vec<u8>>, id: u64, next: u64, link: bool, reused: u64 }
impl World {
    fn sync_append(&mut self, b: &[u8]) {
        fs::OpenOptions::new().append(true).open(&self.path).unwrap().write_all(b).unwrap();
        self.data.as_mut().unwrap().extend(b);
    }
    fn fresh(&mut self) -> PathBuf { self.next += 1; self.d.0.join(format!("n{}", self.next)) }
    /// keep the old inode alive so that a new file can never be mistaken for it
    fn pin(&mut self) { let p = self.fresh(); let real = fs::canonicalize(&self.path).unwrap(); fs::hard_link(real, p).unwrap(); }
    fn remove(&mut self) { self.pin(); if self.link { fs::remove_file(fs::canonicalize(&self.path).unwrap()).unwrap() } fs::remove_file(&self.path).unwrap(); self.data = None; self.link = false; }
    fn put(&mut self, r: &mut Rng, b: Vec<u8>) {
        let tmp = self.fresh();
        if self.data.is_some() && !self.link && r.chance(0.25) { // the inode may come back with another creation time
            use std::os::unix::fs::MetadataExt;
            let id = |p: &PathBuf| { let m = fs::metadata(p).unwrap(); ((m.dev(), m.ino()), m.created().ok()) };
            let old = id(&self.path);
            for k in 0.. {
                fs::remove_file(&self.path).unwrap();
                if k == 10 { fs::write(&tmp, "").unwrap() } // no creation times here: keep the inode taken
                fs::write(&self.path, &b).unwrap();
                if id(&self.path) != old || k == 10 { break }
                std::thread::sleep(std::time::Duration::from_millis(3));
            }
            self.reused += (id(&self.path).0 == old.0) as u64;
            self.next += 1; self.id = self.next; self.data = Some(b);
            return
        }
        if self.data.is_some() { self.pin() }
        match r.below(3) {
            0 if self.data.is_some() && !self.link => { fs::write(&tmp, &b).unwrap(); fs::rename(&tmp, &self.path).unwrap() }
            1 => { fs::write(&tmp, &b).unwrap(); let l = self.fresh(); symlink(&tmp, &l).unwrap(); fs::rename(&l, &self.path).unwrap(); self.link = true }
            _ => { if self.data.is_some() { fs::remove_file(&self.path).unwrap() } fs::write(&self.path, &b).unwrap(); self.link = false }
        }
        self.next += 1; self.id = self.next; self.data = Some(b);
    }
}
fn same(a: &[f64], b: &[f64]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits()) }

fn history(r: &mut Rng, c: &mut Case) {
    let d = Dir::new(); let path = d.0.join("log.csv");
    let mut w = World { path: path.clone(), d, data: None, id: 0, next: 0, link: false, reused: 0 };
    let has = r.chance(0.75);
    let xc = if has { "time".to_string() } else { r.below(3).to_string() };
    let ys = |r: &mut Rng| -> Vec<String> { let k = 1 + r.below(3); (0..k).map(|_| if has { r.pick(&NAMES[1..]).to_string() } else { r.below(6).to_string() }).collect() };
    let mut yc = ys(r);
    let maxp = *r.pick(&[None, None, Some(1), Some(3), Some(17), Some(0)]);
    let mut p = CsvRealtimePlotter::new(CsvRealtimeConfig { csv_path: path.clone(), x_column: xc.clone(), y_columns: yc.clone(), has_header: has, max_points: maxp, ..Default::default() });
    let mut n = 0u64; let mut log: Vec<String> = vec![];
    // model of what the follower has been shown: (identity, bytes)
    let mut seen: Option<(u64, usize)> = None; let mut low = usize::MAX; let mut pending: Vec<u8> = vec![];
    let mut last: (Vec<f64>, Vec<Vec<f64>>) = (vec![], vec![vec![]; yc.len()]);
    let mut blank = false; // the series were cleared by a request while the file was missing
    let mut start = |r: &mut Rng, n: &mut u64| { let k = r.below(8); let mut b = if has { let bad = r.chance(0.15); header(r, bad) } else { vec![] }; b.extend(chunk(r, n, k)); if r.chance(0.4) { let k = r.below(b.len() + 1); b.truncate(k) } b };
    let steps = if c.thorough { 60 } else { 30 };
    for step in 0..steps {
        let mut op = r.below(20);
        if w.data.is_none() && op < 13 && op > 0 { op = 13 }
        // a truncation hidden by regrowth is not observable through the file's metadata: look before growing
        let hidden = matches!((seen, &w.data), (Some((id, pos)), Some(_)) if id == w.id && low < pos);
        let mut poll = 0;
        match op {
            1..=8 if !hidden => { // append, possibly cutting anywhere
                if pending.is_empty() { let k = 1 + r.below(4); pending = chunk(r, &mut n, k) }
                let k = if r.chance(0.6) { 1 + r.below(pending.len()) } else { pending.len() };
                let rest = pending.split_off(k);
                if std::str::from_utf8(&pending).is_err() && std::str::from_utf8(&[&pending[..], &rest[..]].concat()).is_ok() { c.ev("write ends inside a character") }
                w.sync_append(&pending); log.push(format!("append {:?}", String::from_utf8_lossy(&pending))); pending = rest;
                c.ev("append"); if !w.data.as_ref().unwrap().ends_with(b"\n") { c.ev("append ends inside a line") }
            }
            9 | 10 => { // truncate
                let len = w.data.as_ref().unwrap().len(); let k = *r.pick(&[0, len / 2, len.saturating_sub(1), len.saturating_sub(7)]);
                fs::OpenOptions::new().write(true).open(&w.path).unwrap().set_len(k as u64).unwrap();
                w.data.as_mut().unwrap().truncate(k); pending.clear(); low = low.min(k); log.push(format!("truncate {len} -> {k}")); c.ev("truncate");
                if k == 0 && r.chance(0.6) { if let Some((id, pos)) = seen { let mut b = start(r, &mut n); if id == w.id { b.truncate(pos.saturating_sub(1)) } w.sync_append(&b); log.push(format!("rewrite {:?}", String::from_utf8_lossy(&b))); c.ev("rewritten in place") } }
            }
            11 => { w.remove(); pending.clear(); log.push("delete".into()); c.ev("delete") }
            12 | 13 => { let b = start(r, &mut n); log.push(format!("replace by {:?}", String::from_utf8_lossy(&b))); c.ev(if w.data.is_some() { "replace" } else { "create" }); w.put(r, b); c.evn("inode reused", std::mem::take(&mut w.reused)); pending.clear(); low = usize::MAX }
            14 if r.chance(0.4) => { yc = ys(r); poll = 2; log.push(format!("set_y_columns {yc:?}")) }
            15 if step == 0 || r.chance(0.2) => { poll = 3; log.push("initialize".into()) }
            _ => { poll = 1; log.push("poll".into()) }
        }
        if r.chance(0.3) && poll == 0 { poll = 1; log.push("poll".into()) }
        if poll == 0 { continue }
        let res = guard(|| match poll { 1 => p.update_once().map_err(|e| e.to_string()), 2 => p.set_y_columns(yc.clone()).map(|_| true).map_err(|e| e.to_string()), _ => p.initialize().map(|_| true).map_err(|e| e.to_string()) });
        let tell = |m: String| format!("{m}; x={xc} y={yc:?} header={has} max={maxp:?}; history: {}", log[log.len().saturating_sub(14)..].join(" | "));
        let res = match res { Ok(v) => v, Err(e) => { c.fail("panicked", tell(e)); return } };
        c.ev("polls");
        match &w.data {
            None => {
                if poll == 1 { c.ev("poll of a missing file"); c.ok(res == Ok(false), "missing-file", || tell(format!("a missing file gave {res:?}"))); }
                else { c.ok(res.is_ok(), "missing-file", || tell(format!("a missing file gave {res:?}"))); last = (vec![], vec![vec![]; yc.len()]); seen = None; blank = true }
            }
            Some(data) => {
                let restart = poll != 1 || matches!(seen, Some((id, pos)) if id != w.id || data.len() < pos);
                let full = reread(data, has, &xc, &yc);
                let before = match seen { Some((_, pos)) if !restart => reread(&data[..pos], has, &xc, &yc), _ => reread(b"", has, &xc, &yc) };
                if restart && poll == 1 { c.ev("restart") }
                if full.bad {
                    c.ev("unusable header");
                    let must = !before.bad;
                    c.ok(if must { res.is_err() } else { res != Ok(true) }, "bad-header", || tell(format!("a header without the wanted columns gave {res:?}")));
                } else if poll == 1 {
                    let took = full.x.len() - before.x.len();
                    c.evn("rows taken", took as u64); if full.lines - before.lines > took { c.ev("rows skipped") }
                    let want = restart || took > 0; c.ev(if want { "changed" } else { "unchanged" });
                    c.ok(res == Ok(want), "change-report", || tell(format!("poll gave {res:?}, {took} rows were new, restart {restart}")));
                } else { c.ok(res == Ok(true), "reload", || tell(format!("reload gave {res:?}"))); }
                let full = cap(if full.bad { reread(b"", has, &xc, &yc) } else { full }, maxp);
                if Some(full.x.len()) == maxp { c.ev("at the point limit") }
                last = (full.x, full.y); seen = Some((w.id, data.len())); low = usize::MAX; blank = false;
            }
        }
        let _ = blank;
        let good = same(p.x_values(), &last.0) && p.y_values().len() == last.1.len() && p.y_values().iter().zip(&last.1).all(|(a, b)| same(a, b));
        for v in p.x_values() { c.mixf(*v) }
        if !c.ok(good, "series", || tell(format!("shows x {:?} y {:?}, the file holds x {:?} y {:?}", p.x_values(), p.y_values(), last.0, last.1))) { return }
    }
}

/// one thread writes and replaces while another polls: what is shown is always the start of one version
fn live(r: &mut Rng, c: &mut Case) {
    let d = Dir::new(); let path = d.0.join("log.csv");
    let (done, shown) = (AtomicBool::new(false), AtomicU64::new(0));
    let seed = r.u64(); let gens = if c.thorough { 40 } else { 15 };
    let slow = r.chance(0.5);
    let mut p = CsvRealtimePlotter::new(CsvRealtimeConfig { csv_path: path.clone(), x_column: "t".into(), y_columns: vec!["ä".into(), "g".into()], ..Default::default() });
    let line = |g: u64, k: u64| format!("é,{k},{},{g}\n", splitmix(g * 1000 + k) >> 20);
    let (mut bad, mut polls, mut moved, mut gsn) = (None, 0u64, 0u64, std::collections::BTreeSet::new());
    let total = std::thread::scope(|s| {
        let (done, dirp, path, shown) = (&done, &d.0, &path, &shown);
        let writer = s.spawn(move || {
            let mut r = Rng::new(seed); let mut end = (0, 0);
            for g in 0..gens {
                let mut rows = 0; let mut buf = "é,t,ä,g\n".as_bytes().to_vec();
                let first = r.below(20); for _ in 0..first { buf.extend(line(g, rows).bytes()); rows += 1 }
                let put = if r.chance(0.5) { buf.split_off(r.below(buf.len() + 1)) } else { vec![] };
                let tmp = dirp.join(format!("g{g}")); fs::write(&tmp, &buf).unwrap(); buf = put;
                let keep = dirp.join(format!("k{g}")); fs::hard_link(&tmp, &keep).unwrap();
                if g > 0 && r.chance(0.3) { fs::remove_file(path).unwrap() }
                fs::rename(&tmp, path).unwrap();
                let mut f = fs::OpenOptions::new().append(true).open(path).unwrap();
                for _ in 0..r.below(25) {
                    if r.chance(0.7) { for _ in 0..r.below(3) { buf.extend(line(g, rows).bytes()); rows += 1 } }
                    let rest = buf.split_off(r.below(buf.len() + 1)); f.write_all(&buf).unwrap(); buf = rest;
                    match r.below(4) { 0 => std::thread::yield_now(), 1 => std::thread::sleep(Duration::from_micros(r.below(if slow { 400 } else { 60 }) as u64)), _ => {} }
                }
                f.write_all(&buf).unwrap(); end = (g, rows);
                // let the reader catch up now and then
                if r.chance(0.3) { let t = Instant::now(); let was = shown.load(SeqCst); while shown.load(SeqCst) < was + 3 && t.elapsed() < Duration::from_millis(50) { std::thread::yield_now() } }
            }
            done.store(true, SeqCst); end
        });
        loop {
            let over = done.load(SeqCst);
            let res = guard(|| p.update_once().map_err(|e| e.to_string()));
            polls += 1; shown.fetch_add(1, SeqCst);
            match res { Ok(Ok(ch)) => moved += ch as u64, e => { bad.get_or_insert(("live-error", format!("a poll during writing gave {e:?}"))); } }
            let (x, y) = (p.x_values(), p.y_values());
            if y.iter().any(|v| v.len() != x.len()) { bad.get_or_insert(("live-columns", "columns of different length".into())); }
            else if let Some(g) = y[1].first() {
                gsn.insert(*g as u64);
                for k in 0..x.len() { if x[k] != k as f64 || y[1][k] != *g || y[0][k] != (splitmix(*g as u64 * 1000 + k as u64) >> 20) as f64 { bad.get_or_insert(("live-rows", format!("row {k} of version {g} shows {} {} {}", x[k], y[0][k], y[1][k]))); break } }
            }
            if over { break }
        }
        writer.join().unwrap()
    });
    c.evn("live polls", polls); c.evn("live changes", moved); c.evn("live versions seen", gsn.len() as u64); c.mix(polls ^ moved << 20);
    if let Some((k, m)) = bad { c.fail(k, m) }
    let (g, rows) = total;
    c.ok(p.x_values().len() as u64 == rows && p.y_values()[1].iter().all(|v| *v == g as f64), "live-final", || format!("after the writer finished version {g} with {rows} rows, {} rows of version {:?} are shown", p.x_values().len(), p.y_values()[1].first()));
    let _ = Path::new(&path);
}

/// `run_forever` in a thread of its own: the drawing follows the file until it can no longer be written
fn forever(r: &mut Rng, c: &mut Case) {
    let d = Dir::new(); let csv = d.0.join("log.csv"); let out = d.0.join("out"); fs::create_dir_all(&out).unwrap(); let svg = out.join("plot.svg");
    let hz = *r.pick(&[500.0, 2000.0, 1e6, 0.0, -3.0, f64::NAN]); // unusable rates mean five a second
    let early = r.chance(0.5);
    let mut file = b"t,v\n".to_vec(); let mut rows = 0u64;
    let mut more = |r: &mut Rng, b: &mut Vec<u8>| { for _ in 0..1 + r.below(4) { b.extend(format!("{rows},{}\n", splitmix(rows) % 97).bytes()); rows += 1 } rows };
    let mut want = 0;
    if early { want = more(r, &mut file); fs::write(&csv, &file).unwrap(); }
    let (tx, rx) = std::sync::mpsc::channel();
    let cfg = CsvRealtimeConfig { csv_path: csv.clone(), output_path: svg.clone(), x_column: "t".into(), y_columns: vec!["v".into()], style: aether_viz::PlotStyle::Points, poll_hz: hz, ..Default::default() };
    std::thread::spawn(move || { let mut p = CsvRealtimePlotter::new(cfg); let _ = tx.send(guard(|| p.run_forever().map_err(|e| e.to_string()))); });
    let dots = || { let t = fs::read_to_string(&svg).unwrap_or_default(); if t.trim_end().ends_with("</svg>") { t.matches("<circle").count() as u64 } else { 0 } };
    // marks drawn: one per row and one in the legend
    let wait = |want: u64| { let t = Instant::now(); while t.elapsed() < Duration::from_secs(20) { if dots() == want + 1 { return true } std::thread::sleep(Duration::from_millis(1)) } false };
    let steps = 3 + r.below(4); c.mixf(hz);
    for k in 0..=steps {
        if want > 0 && !c.ok(wait(want), "loop-behind", || format!("twenty seconds after row {want} was written {} marks are drawn (rate {hz}, step {k}); the loop says {:?}", dots(), rx.try_recv())) { return }
        if want > 0 { c.ev("drawings awaited") }
        if k == steps { break }
        let b = if want == 0 { want = more(r, &mut file); file.clone() } else { let mut b = vec![]; want = more(r, &mut b); b };
        let cut = r.below(b.len());
        fs::OpenOptions::new().create(true).append(true).open(&csv).unwrap().write_all(&b[..cut]).unwrap();
        if r.chance(0.5) { std::thread::sleep(Duration::from_micros(r.below(3000) as u64)) }
        fs::OpenOptions::new().append(true).open(&csv).unwrap().write_all(&b[cut..]).unwrap();
        c.mix(want << 8 | cut as u64);
    }
    fs::remove_dir_all(&out).unwrap();
    let mut b = vec![]; more(r, &mut b); fs::OpenOptions::new().append(true).open(&csv).unwrap().write_all(&b).unwrap();
    match rx.recv_timeout(Duration::from_secs(20)) {
        Ok(Ok(Err(_))) => c.ev("loops ended by an unwritable drawing"),
        e => c.fail("loop-end", format!("the drawing became unwritable and new rows arrived: {e:?} (rate {hz})")),
    }
}

fn main() {
    let mut x = Ctx::from_args("C26");
    x.family("history", 4000, 40000, history);
    x.family("live", 300, 3000, live);
    x.family("loop", 60, 600, forever);
    x.require("drawings awaited", 200); x.require("loops ended by an unwritable drawing", 60);
    for (e, n) in [("polls", 20000), ("rows taken", 10000), ("rows skipped", 500), ("restart", 2000), ("write ends inside a character", 30), ("append ends inside a line", 2000), ("truncate", 1000), ("rewritten in place", 100), ("replace", 1000), ("delete", 500), ("poll of a missing file", 200), ("unusable header", 200), ("at the point limit", 500), ("unchanged", 1000), ("live changes", 1000), ("live versions seen", 1000)] { x.require(e, n) }
    let _ = fs::remove_dir_all(root());
    x.finish()
}
