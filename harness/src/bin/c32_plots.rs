//! C32: the SVG files the plot helpers write are parsed back and compared, point by point, with the data given.
use aether_monitors::fw::*;
use aether_viz::realtime::{CsvRealtimeConfig, CsvRealtimePlotter};
use aether_viz::*;
use std::cell::RefCell;
use std::collections::HashSet;
use std::fs;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

static NEXT: AtomicU64 = AtomicU64::new(0);
fn root() -> PathBuf { std::env::temp_dir().join(format!("aether_c32_{}", std::process::id())) }
struct Tmp(PathBuf);
impl Tmp { fn new() -> Self { let d = root().join(NEXT.fetch_add(1, SeqCst).to_string()); fs::create_dir_all(&d).unwrap(); Tmp(d) } fn p(&self, n: &str) -> PathBuf { self.0.join(n) } }
impl Drop for Tmp { fn drop(&mut self) { let _ = fs::remove_dir_all(&self.0); } }

// ---- a reader of the drawn file -------------------------------------------------------------
#[cfg_attr(not(feature = "viz"), allow(dead_code))]
#[derive(Debug, Clone)]
enum El { Path(Vec<(f64, f64)>, String, f64), Dot(f64, f64, f64, String), Line(f64, f64, f64, f64, f64), Rect, Text(String) }
fn unesc(s: &str) -> String { s.replace("&lt;", "<").replace("&gt;", ">").replace("&quot;", "\"").replace("&apos;", "'").replace("&#39;", "'").replace("&amp;", "&") }
fn attr<'a>(t: &'a str, n: &str) -> Option<&'a str> { let k = format!(" {n}=\""); let i = t.find(&k)? + k.len(); let j = t[i..].find('"')?; Some(&t[i..i + j]) }
fn parse(s: &str) -> Result<Vec<El>, String> {
    let mut out = vec![]; let mut i = 0; let mut closed = false; let mut opened = false;
    while let Some(o) = s[i..].find('<') {
        let b = i + o; let e = b + s[b..].find('>').ok_or("tag without end")?; let t = &s[b + 1..e]; i = e + 1;
        let f = |n: &str| attr(t, n).and_then(|v| v.parse::<f64>().ok()).ok_or_else(|| format!("attribute {n} of <{t}>"));
        if closed { return Err("content after the end".into()) }
        let name = t.split([' ', '/', '>']).next().unwrap_or("");
        match name {
            "svg" => opened = true, "" if t == "/svg" => closed = true,
            "" if t == "/text" => {}
            "text" => { let j = i + s[i..].find("</text>").ok_or("text without end")?; out.push(El::Text(unesc(s[i..j].trim_matches('\n')))); i = j; }
            "polyline" => { let p: Option<Vec<(f64, f64)>> = attr(t, "points").unwrap_or("").split_whitespace().map(|q| { let (a, b) = q.split_once(',')?; Some((a.parse().ok()?, b.parse().ok()?)) }).collect(); out.push(El::Path(p.ok_or("points")?, attr(t, "stroke").unwrap_or("").into(), f("stroke-width")?)); }
            "circle" => out.push(El::Dot(f("cx")?, f("cy")?, f("r")?, attr(t, "fill").unwrap_or("").into())),
            "line" => out.push(El::Line(f("x1")?, f("y1")?, f("x2")?, f("y2")?, f("opacity")?)),
            "rect" => out.push(El::Rect),
            _ => return Err(format!("unexpected element <{t}>")),
        }
    }
    if opened && closed { Ok(out) } else { Err("not a complete file".into()) }
}
/// plotting area in pixels: left, right, bottom, top, from the grid lines
fn frame(e: &[El]) -> Option<[f64; 4]> {
    let mut f = [f64::INFINITY, f64::NEG_INFINITY, f64::NEG_INFINITY, f64::INFINITY]; let (mut h, mut v) = (0, 0);
    for x in e { if let El::Line(x1, y1, x2, y2, o) = x { if *o < 0.5 {
        if x1 == x2 && y1 != y2 { v += 1; f[2] = f[2].max(y1.max(*y2)); f[3] = f[3].min(y1.min(*y2)); }
        else if y1 == y2 && x1 != x2 { h += 1; f[0] = f[0].min(x1.min(*x2)); f[1] = f[1].max(x1.max(*x2)); }
    } } }
    (h > 0 && v > 0).then_some(f)
}
/// where `v` of the axis `lo..hi` falls between pixels `a` and `b`; None: the axis has no extent at this magnitude
fn at(v: f64, lo: f64, hi: f64, a: f64, b: f64) -> Option<(f64, f64)> {
    let span = hi - lo; let m = v.abs().max(lo.abs()).max(hi.abs());
    // rounding of the ends of the axis, which is a whole quantum among the subnormals
    let err = (8.0 * f64::EPSILON * m).max(8.0 * 5e-324) / span.abs();
    if !(err < 0.1) { return None }
    Some((a + (v - lo) / span * (b - a), 1.6 + err * (b - a).abs()))
}

#[derive(Debug, Clone)]
struct S { xs: Vec<f64>, ys: Vec<f64>, label: Option<String>, style: PlotStyle }
fn finite(s: &S) -> Vec<(f64, f64)> { s.xs.iter().zip(&s.ys).filter(|(x, y)| x.is_finite() && y.is_finite()).map(|(x, y)| (*x, *y)).collect() }
fn bounds(it: impl Iterator<Item = f64>) -> (f64, f64) { let (mut a, mut b) = (f64::INFINITY, f64::NEG_INFINITY); for v in it { a = a.min(v); b = b.max(v) } if a == b { b = a + 1.0 } (a, b) }
/// the file holds exactly these series
fn judge(c: &mut Case, text: &str, all: &[S], title: &str, xl: Option<&str>, yl: Option<&str>, what: &dyn Fn() -> String) {
    let els = match parse(text) { Ok(e) => e, Err(e) => return c.fail("malformed-file", format!("{e}; {}", what())) };
    let shown: Vec<(&S, Vec<(f64, f64)>)> = all.iter().map(|s| (s, finite(s))).filter(|(_, p)| !p.is_empty()).collect();
    let Some(fr) = frame(&els) else { if shown.iter().any(|(_, p)| p.iter().any(|q| q.0.abs() > 1e307 || q.1.abs() > 1e307)) { c.ev("axes too wide for a grid") } else { c.fail("no-grid", what()) } return };
    c.ok(fr[0] >= 0.0 && fr[1] <= 1920.0 && fr[3] >= 0.0 && fr[2] <= 1080.0 && fr[1] - fr[0] > 1500.0 && fr[2] - fr[3] > 800.0, "frame", || format!("{fr:?}; {}", what()));
    let texts: Vec<&String> = els.iter().filter_map(|e| if let El::Text(t) = e { Some(t) } else { None }).collect();
    for (k, t) in [("title", Some(title)), ("x-label", xl), ("y-label", yl)] { if let Some(t) = t { if !t.is_empty() { c.ok(texts.iter().any(|x| x.as_str() == t), if k == "title" { "title" } else { "axis-label" }, || format!("{k} {t:?} not among the texts; {}", what())); } } }
    let mut draw: Vec<&El> = els.iter().filter(|e| !matches!(e, El::Text(_) | El::Line(..))).collect();
    let labels: Vec<&str> = shown.iter().filter_map(|(s, _)| s.label.as_deref()).collect();
    // from the end: legend marks, the legend's box, the series
    let mut marks = vec![];
    if !labels.is_empty() {
        for _ in &labels { match draw.pop() { Some(e @ (El::Path(..) | El::Dot(..))) => marks.push(e), e => return c.fail("legend-marks", format!("{} labels, found {e:?} after {} marks; {}", labels.len(), marks.len(), what())) } }
        marks.reverse();
        for _ in 0..2 { if !matches!(draw.pop(), Some(El::Rect)) { return c.fail("legend-box", what()) } }
        let tail: Vec<&str> = texts[texts.len().saturating_sub(labels.len())..].iter().map(|s| s.as_str()).collect();
        c.ok(tail == labels, "legend-labels", || format!("{tail:?} instead of {labels:?}; {}", what()));
    }
    let n: usize = shown.iter().map(|(s, p)| if s.style == PlotStyle::Line { 1 } else { p.len() }).sum();
    if draw.len() < n { return c.fail("missing-series", format!("{} drawn elements for {n}; {}", draw.len(), what())) }
    let rest = draw.split_off(draw.len() - n);
    // nothing but axis lines and ticks before the series: black paths of two points, the white background
    c.ok(draw.iter().all(|e| match e { El::Path(p, s, _) => p.len() <= 3 && s.as_str() == "#000000", El::Rect => true, _ => false }), "extra-series", || format!("an element that is no part of any series or axis; {}", what()));
    let ((xa, xb), (ya, yb)) = (bounds(shown.iter().flat_map(|(_, p)| p.iter().map(|q| q.0))), bounds(shown.iter().flat_map(|(_, p)| p.iter().map(|q| q.1))));
    let (xp, yp) = ((xb - xa).abs() * 0.03, (yb - ya).abs() * 0.03);
    let (x0, x1, y0, y1) = (xa - xp, xb + xp, ya - yp, yb + yp);
    let mut it = rest.into_iter(); let mut marks = marks.into_iter(); let mut colours = vec![];
    for (k, (s, p)) in shown.iter().enumerate() {
        let mut place = |c: &mut Case, q: (f64, f64), d: (f64, f64)| {
            for (axis, v, lo, hi, a, b, g) in [("x", q.0, x0, x1, fr[0], fr[1], d.0), ("y", q.1, y0, y1, fr[2], fr[3], d.1)] {
                match at(v, lo, hi, a, b) {
                    Some((w, tol)) => { if !c.ok((g - w).abs() <= tol, "misplaced-point", || format!("series {k}: {q:?} drawn at {axis} pixel {g}, expected {w}, axis {lo}..{hi}; {}", what())) { return false } }
                    None => { c.ev("axes without extent"); if !c.ok(g >= a.min(b) - 2.0 && g <= a.max(b) + 2.0, "point-off-the-chart", || format!("series {k}: {q:?} drawn at {axis} pixel {g}; {}", what())) { return false } }
                }
            }
            true
        };
        let colour = match s.style {
            PlotStyle::Line => match it.next() {
                Some(El::Path(d, col, _)) => {
                    if !c.ok(d.len() == p.len(), "line-points", || format!("series {k}: {} vertices for {} finite points; {}", d.len(), p.len(), what())) { return }
                    for (q, d) in p.iter().zip(d) { if !place(c, *q, *d) { return } }
                    c.ev("lines"); col.clone() }
                e => return c.fail("wrong-style", format!("series {k} drawn as {e:?}; {}", what())) },
            PlotStyle::Points => {
                let mut col = None;
                for q in p { match it.next() {
                    Some(El::Dot(x, y, r, f)) => { if !c.ok(*r > 0.0 && col.as_ref().is_none_or(|c| c == f), "point-marks", || format!("series {k}: radius {r} fill {f} after {col:?}; {}", what())) { return } if !place(c, *q, (*x, *y)) { return } col = Some(f.clone()); }
                    e => return c.fail("wrong-style", format!("series {k} drawn as {e:?}; {}", what())) } }
                c.ev("point series"); col.unwrap() }
        };
        if s.label.is_some() { let m = match marks.next() { Some(El::Path(_, col, _)) if s.style == PlotStyle::Line => col.clone(), Some(El::Dot(_, _, _, col)) if s.style == PlotStyle::Points => col.clone(), e => return c.fail("legend-style", format!("series {k}: {e:?}; {}", what())) };
            c.ok(m == colour, "legend-colour", || format!("series {k} is {colour}, its mark {m}; {}", what())); c.ev("legend entries"); }
        colours.push(colour); c.evn("points placed", p.len() as u64);
    }
    // the palette holds 21
    colours.truncate(20);
    c.ok(colours.iter().collect::<HashSet<_>>().len() == colours.len(), "shared-colour", || format!("{colours:?}; {}", what()));
    if all.len() > shown.len() { c.ev("series without finite points") }
}

#[cfg(feature = "viz")]
const EXT: &str = "svg";
#[cfg(not(feature = "viz"))]
const EXT: &str = "bmp";
#[cfg(feature = "viz")]
fn judge_file(c: &mut Case, p: &std::path::Path, all: &[S], title: &str, xl: Option<&str>, yl: Option<&str>, what: &dyn Fn() -> String) {
    match fs::read_to_string(p) { Ok(s) => judge(c, &s, all, title, xl, yl, what), Err(e) => c.fail("no-file", format!("{e}; {}", what())) }
}
#[cfg(not(feature = "viz"))]
fn judge_file(c: &mut Case, p: &std::path::Path, all: &[S], title: &str, _: Option<&str>, _: Option<&str>, what: &dyn Fn() -> String) {
    match Img::read(p) { Ok(i) => bitmap::judge(c, &i, all, title, what), Err(e) => c.fail("no-file", format!("{e}; {}", what())) }
}
#[cfg(not(feature = "viz"))]
use bitmap::Img;
/// the images of the bitmap back end: every mark and stretch of line is looked for where it belongs, and colour anywhere else is an error
#[cfg(not(feature = "viz"))]
mod bitmap {
    use super::*;
    pub struct Img { pub w: i64, pub h: i64, d: Vec<u8> }
    impl Img {
        pub fn read(p: &std::path::Path) -> Result<Img, String> {
            let b = fs::read(p).map_err(|e| e.to_string())?;
            let n = |i: usize| b.get(i..i + 4).map(|q| i32::from_le_bytes(q.try_into().unwrap()) as i64);
            let (Some(off), Some(w), Some(h)) = (n(10), n(18), n(22)) else { return Err("short file".into()) };
            let stride = (w * 3 + 3) / 4 * 4;
            if &b[..2] != b"BM" || b[28] != 24 || w <= 0 || h <= 0 || (b.len() as i64) < off + stride * h { return Err(format!("not a complete image of 24 bits: {w} by {h}, {} bytes", b.len())) }
            let mut d = vec![0; (w * h * 3) as usize];
            for y in 0..h { for x in 0..w { let i = (off + (h - 1 - y) * stride + x * 3) as usize; let o = ((y * w + x) * 3) as usize; d[o] = b[i + 2]; d[o + 1] = b[i + 1]; d[o + 2] = b[i]; } }
            Ok(Img { w, h, d })
        }
        pub fn at(&self, x: i64, y: i64) -> [i32; 3] { if x < 0 || y < 0 || x >= self.w || y >= self.h { return [255; 3] } let o = ((y * self.w + x) * 3) as usize; [self.d[o] as i32, self.d[o + 1] as i32, self.d[o + 2] as i32] }
        /// left, right, bottom, top: the longest black column and row are the axes
        pub fn frame(&self) -> [f64; 4] {
            let run = |n: i64, px: &dyn Fn(i64) -> [i32; 3]| { let (mut best, mut s) = ((0, 0), None); for k in 0..=n { if k < n && px(k).iter().all(|v| *v < 60) { if s.is_none() { s = Some(k) } } else if let Some(a) = s { if k - a > best.1 - best.0 { best = (a, k) } s = None } } best };
            let (mut l, mut b) = ((0, (0, 0)), (0, (0, 0)));
            for x in 0..self.w { let r = run(self.h, &|y| self.at(x, y)); if r.1 - r.0 > l.1.1 - l.1.0 { l = (x, r) } }
            for y in 0..self.h { let r = run(self.w, &|x| self.at(x, y)); if r.1 - r.0 >= b.1.1 - b.1.0 { b = (y, r) } }
            [l.0 as f64, (b.1.1 - 1) as f64, b.0 as f64, l.1.0 as f64]
        }
    }
    fn chroma(p: [i32; 3]) -> i32 { p.iter().max().unwrap() - p.iter().min().unwrap() }
    fn hue(p: [i32; 3]) -> [f64; 3] { let m = *p.iter().min().unwrap(); let c = chroma(p).max(1) as f64; p.map(|v| (v - m) as f64 / c) }
    fn alike(a: [f64; 3], b: [f64; 3]) -> bool { (0..3).all(|i| (a[i] - b[i]).abs() < 0.09) }
    /// pixel positions along a polyline
    pub fn walk(p: &[(f64, f64)], mut f: impl FnMut(f64, f64)) {
        for q in p { f(q.0, q.1) }
        for v in p.windows(2) { let n = ((v[1].0 - v[0].0).abs().max((v[1].1 - v[0].1).abs()) / 1.5).ceil().max(1.0) as i64; for k in 0..n { let t = k as f64 / n as f64; f(v[0].0 + t * (v[1].0 - v[0].0), v[0].1 + t * (v[1].1 - v[0].1)) } }
    }
    pub fn judge(c: &mut Case, im: &Img, all: &[S], title: &str, what: &dyn Fn() -> String) {
        let shown: Vec<(&S, Vec<(f64, f64)>)> = all.iter().map(|s| (s, finite(s))).filter(|(_, p)| !p.is_empty()).collect();
        let fr = im.frame();
        {
            let ((xa, xb), (ya, yb)) = (bounds(shown.iter().flat_map(|(_, p)| p.iter().map(|q| q.0))), bounds(shown.iter().flat_map(|(_, p)| p.iter().map(|q| q.1))));
            let flat = |a: f64, b: f64| at(a, a, b, 0.0, 1800.0).is_none_or(|v| v.1 > 1.9) || a.abs() > 1e307 || b.abs() > 1e307;
            if flat(xa, xb) || flat(ya, yb) { c.ev("axes without extent"); return }
        }
        // tick labels of hundreds of digits run across the axes
        let long = |a: f64| a.abs() > 1e12 || a.abs() < 1e-12;
        if shown.iter().any(|(_, p)| p.iter().any(|q| long(q.0) || long(q.1))) && !(fr[0] > 20.0 && fr[1] < 1915.0 && fr[2] < 1060.0 && fr[1] - fr[0] > 1500.0 && fr[2] - fr[3] > 800.0) { c.ev("axes under their labels"); return }
        if !c.ok(im.w == 1920 && im.h == 1080 && fr[0] > 20.0 && fr[1] < 1915.0 && fr[2] < 1060.0 && fr[1] - fr[0] > 1500.0 && fr[2] - fr[3] > 800.0, "frame", || format!("{} by {}, axes {fr:?}; {}", im.w, im.h, what())) { return }
        if !title.trim().is_empty() { c.ok((0..fr[3] as i64 - 2).any(|y| (0..im.w).any(|x| im.at(x, y)[0] < 128)), "title", || format!("nothing above the plot; {}", what())); }
        let ((xa, xb), (ya, yb)) = (bounds(shown.iter().flat_map(|(_, p)| p.iter().map(|q| q.0))), bounds(shown.iter().flat_map(|(_, p)| p.iter().map(|q| q.1))));
        let (xp, yp) = ((xb - xa).abs() * 0.03, (yb - ya).abs() * 0.03);
        let (x0, x1, y0, y1) = (xa - xp, xb + xp, ya - yp, yb + yp);
        let mut geo = vec![];
        for (_, p) in &shown { let mut g = vec![]; for q in p { match (at(q.0, x0, x1, fr[0], fr[1]), at(q.1, y0, y1, fr[2], fr[3])) { (Some((x, a)), Some((y, b))) if a < 2.0 && b < 2.0 => g.push((x, y)), _ => { c.ev("axes without extent"); return } } } geo.push(g) }
        if shown.len() > 8 { c.ev("too many colours to tell apart"); return }
        // which series may have coloured each pixel
        let (w, h) = (im.w, im.h); let mut mask = vec![0u8; (w * h) as usize];
        for (k, g) in geo.iter().enumerate() {
            let rad = if shown[k].0.style == PlotStyle::Points { 7 } else { 4 };
            let mut blot = |x: f64, y: f64| { let (x, y) = (x.round() as i64, y.round() as i64); for j in -rad..=rad { for i in -rad..=rad { if i * i + j * j <= rad * rad { let (u, v) = (x + i, y + j); if u >= 0 && v >= 0 && u < w && v < h { mask[(v * w + u) as usize] |= 1 << k } } } } };
            if rad == 7 { for q in g { blot(q.0, q.1) } } else { walk(g, blot) }
        }
        let (l, r, b, t) = (fr[0] as i64 + 3, fr[1] as i64 - 2, fr[2] as i64 - 3, fr[3] as i64 + 3);
        let labels: Vec<usize> = (0..shown.len()).filter(|k| shown[*k].0.label.is_some()).collect();
        // the only black inside the plot is the legend
        let mut lg = [i64::MAX, i64::MIN, i64::MAX, i64::MIN];
        for y in t..b { for x in l..r { if im.at(x, y).iter().all(|v| *v < 12) { lg = [lg[0].min(x), lg[1].max(x), lg[2].min(y), lg[3].max(y)] } } }
        let legend = lg[0] <= lg[1];
        if !c.ok(legend == !labels.is_empty(), "legend-box", || format!("legend {lg:?} for {} labels; {}", labels.len(), what())) { return }
        let in_legend = |x: i64, y: i64| legend && x >= lg[0] - 2 && x <= lg[1] + 2 && y >= lg[2] - 2 && y <= lg[3] + 2;
        for y in t..b { for x in l..r { if mask[(y * w + x) as usize] == 0 && !in_legend(x, y) && chroma(im.at(x, y)) > 40 { return c.fail("colour-out-of-place", format!("pixel {x}, {y} is {:?}, no series is there; {}", im.at(x, y), what())) } } }
        let mut hues: Vec<Option<[f64; 3]>> = vec![];
        for (k, g) in geo.iter().enumerate() {
            let near = |x: i64, y: i64, d: i64| { let mut m = [255; 3]; for j in -d..=d { for i in -d..=d { let p = im.at(x + i, y + j); if chroma(p) > chroma(m) { m = p } } } m };
            let only = |x: i64, y: i64| { !in_legend(x, y) && (-3..=3).all(|j| (-3..=3).all(|i| { let (u, v) = (x + i, y + j); u < 0 || v < 0 || u >= w || v >= h || mask[(v * w + u) as usize] & !(1 << k) == 0 })) };
            let (mut seen, mut found, mut miss, mut lost) = (None, 0u64, 0u64, None);
            let points = shown[k].0.style == PlotStyle::Points;
            let mut look = |x: f64, y: f64| { let (x, y) = (x.round() as i64, y.round() as i64); if !only(x, y) { return }
                let m = near(x, y, if points { 1 } else { 2 });
                if chroma(m) < 40 { lost = Some((x, y, m)); miss += 1; return }
                match seen { None => seen = Some(hue(m)), Some(s) => if !alike(s, hue(m)) { lost = Some((x, y, m)); miss += 1 } } found += 1; };
            // a line that does not move has no pixels
            if points { for q in g { look(q.0, q.1) } } else if g.iter().any(|q| (q.0 - g[0].0).abs().max((q.1 - g[0].1).abs()) > 4.0) { walk(g, look) }
            // the back end itself leaves out a few pixels of steep lines
            if !points && miss > 0 && miss <= 4 + found / 50 { c.evn("line pixels left out", miss); lost = None }
            if let Some((x, y, m)) = lost { return c.fail(if points { "missing-mark" } else { "broken-line" }, format!("series {k}: pixel {x}, {y} is {m:?}, the series {seen:?} ({miss} so, {found} right); {}", what())) }
            c.evn(if points { "marks found" } else { "line pixels found" }, found); hues.push(seen);
        }
        for i in 0..hues.len() { for j in 0..i { if let (Some(a), Some(b)) = (hues[i], hues[j]) { c.ok(!alike(a, b), "shared-colour", || format!("series {j} and {i}: {a:?}; {}", what())); } } }
        if legend {
            // one mark per label, in order, in the colour of its series
            let mut last = -1.0;
            for k in labels { if let Some(hk) = hues[k] {
                let (mut n, mut sy) = (0.0, 0.0);
                for y in lg[2]..=lg[3] { for x in lg[0]..=lg[1] { let p = im.at(x, y); if chroma(p) > 110 && alike(hue(p), hk) { n += 1.0; sy += y as f64 } } }
                if !c.ok(n >= 8.0 && sy / n > last, "legend-marks", || format!("series {k}: {n} pixels of its colour at height {}, the one before at {last}; {}", sy / n, what())) { return }
                last = sy / n; c.ev("legend entries");
            } }
        }
        c.ev("images"); if all.len() > shown.len() { c.ev("series without finite points") }
    }
    /// a black line through these pixels on a grey grid
    pub fn black(c: &mut Case, im: &Img, g: &[(f64, f64)], fr: [f64; 4], what: &dyn Fn() -> String) {
        let mut mask = HashSet::new(); let (mut found, mut miss, mut lost) = (0u64, 0u64, None);
        walk(g, |x, y| { let (x, y) = (x.round() as i64, y.round() as i64); let mut dark = 255; for j in -4..=4 { for i in -4..=4 { mask.insert((x + i, y + j)); if i64::abs(i) <= 2 && i64::abs(j) <= 2 { dark = dark.min(im.at(x + i, y + j)[0]) } } } if g.len() > 1 && dark > 175 { lost = Some((x, y)); miss += 1 } else { found += 1 } });
        if miss > 0 && miss <= 4 + found / 50 { c.evn("line pixels left out", miss); lost = None }
        if let Some(p) = lost { return c.fail("broken-line", format!("no line at pixel {p:?}; {}", what())) }
        for y in fr[3] as i64 + 3..fr[2] as i64 - 3 { for x in fr[0] as i64 + 3..fr[1] as i64 - 2 { if im.at(x, y)[0] < 120 && !mask.contains(&(x, y)) { return c.fail("colour-out-of-place", format!("pixel {x}, {y} is dark, no line is there; {}", what())) } } }
        c.evn("error points placed", g.len() as u64);
    }
}

fn value(r: &mut Rng, mode: u64, off: f64, sc: f64) -> f64 {
    if r.chance(0.08) { return *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]) }
    match mode { 0 => r.int(-5, 5) as f64, 1 => off, 2 => off + sc * r.unit(), 3 => r.sign() * r.logu(1e-6, 1e6), _ => sc * r.normal() }
}
fn words(r: &mut Rng) -> String { (*r.pick(&["speed", "a<b", "x & y", "\"q\"", "it's", "höhe (m)", "温度", "a  b", "&amp;", "1.0", "</text>", "-", "α>β", " padded "])).to_string() + &if r.chance(0.5) { format!(" {}", r.below(100)) } else { String::new() } }
fn data(r: &mut Rng, n: usize) -> Vec<S> {
    let (mx, my) = (r.below(5) as u64, r.below(5) as u64);
    let (ox, oy) = (r.normal() * r.logu(1e-3, 1e9), r.normal() * r.logu(1e-3, 1e9));
    let (sx, sy) = (r.logu(1e-6, 1e6), r.logu(1e-6, 1e6));
    let named = r.below(3);
    (0..n).map(|_| { let m = match r.below(6) { 0 => 0, 1 => 1, 2 => 2, _ => r.below(60) }; let gone = r.chance(0.05);
        S { xs: (0..m).map(|_| if gone { f64::NAN } else { value(r, mx, ox, sx) }).collect(), ys: (0..m).map(|_| value(r, my, oy, sy)).collect(), label: match named { 0 => None, 1 => r.chance(0.5).then(|| words(r)), _ => Some(words(r)) }, style: if r.chance(0.5) { PlotStyle::Line } else { PlotStyle::Points } } }).collect()
}
fn call(ss: &[S], title: &str, xl: Option<&str>, yl: Option<&str>, path: Option<&str>, single: bool) -> Result<Result<(), String>, String> {
    guard(|| if single { plot(&ss[0].xs, &ss[0].ys, title, xl, yl, path, ss[0].style).map_err(|e| e.to_string()) } else {
        let v: Vec<XYSeries> = ss.iter().map(|s| { let x = XYSeries::new(&s.xs, &s.ys).with_style(s.style); match &s.label { Some(l) => x.with_label(l), None => x } }).collect();
        plot_series(&v, title, xl, yl, path).map_err(|e| e.to_string()) })
}
fn series(r: &mut Rng, c: &mut Case) {
    let t = Tmp::new(); let n = match r.below(12) { 0 => r.int(8, 30) as usize, _ => r.int(1, 6) as usize };
    let mut ss = data(r, n);
    let single = n == 1 && r.chance(0.7); if single { ss[0].label = None }
    let (title, xl, yl) = (words(r), r.chance(0.6).then(|| words(r)), r.chance(0.6).then(|| words(r)));
    let p = t.p(&format!("plot.{EXT}")); let before = r.chance(0.2); if before { fs::write(&p, vec![b'x'; 300_000]).unwrap() }
    c.mix(hash_str(&format!("{ss:?}")));
    let what = || format!("{ss:?} title {title:?} labels {xl:?} {yl:?}");
    let none = r.chance(0.05);
    let res = call(&ss, &title, xl.as_deref(), yl.as_deref(), if none { None } else { p.to_str() }, single);
    let res = match res { Ok(v) => v, Err(e) => return c.fail("panic", format!("{e}; {}", what())) };
    let any = ss.iter().any(|s| !finite(s).is_empty());
    if !c.ok(res.is_ok() == any, "refusal", || format!("{res:?}; {}", what())) { return }
    if !any { c.ok(p.exists() == before, "refused-but-wrote", what); c.ev("nothing finite to plot"); return }
    if none { c.ok(p.exists() == before && fs::read_dir(&t.0).unwrap().count() == before as usize, "wrote-without-path", what); c.ev("drawn without a file"); return }
    judge_file(c, &p, &ss, &title, xl.as_deref(), yl.as_deref(), &what);
    c.ev("plots"); c.state(hash_str(&format!("{n}{single}{}{}", ss.iter().filter(|s| s.label.is_some()).count(), ss.iter().filter(|s| s.style == PlotStyle::Line).count())));
}
/// any magnitude: drawn, or refused where the axis would overflow, and always ends
fn extremes(r: &mut Rng, c: &mut Case) {
    let t = Tmp::new(); let p = t.p(&format!("p.{EXT}"));
    let v = |r: &mut Rng| -> Vec<f64> { let m = r.sign() * 10f64.powf(r.range(-320.0, 308.2)); let d = match r.below(5) { 0 => m.abs() * f64::EPSILON * r.below(64) as f64, 1 => r.sign() * r.range(1.0, 1.79) * 1e308, 2 => r.sign() * 10f64.powf(r.range(-320.0, 308.2)), 3 => 0.0, _ => m * 10f64.powf(-r.range(0.0, 18.0)) }; (0..r.int(1, 4)).map(|k| { let z = m + d * if k == 0 { 0.0 } else if k == 1 { 1.0 } else { r.range(-1.0, 1.0) }; if z.is_finite() { z } else { m } }).collect() };
    let (mut xs, mut ys) = (v(r), v(r)); if r.chance(0.3) { xs = (0..ys.len()).map(|i| i as f64).collect() } let n = xs.len().min(ys.len()); xs.truncate(n); ys.truncate(n);
    let s = [S { xs, ys, label: None, style: if r.chance(0.5) { PlotStyle::Line } else { PlotStyle::Points } }];
    for v in &s[0].xs { c.mixf(*v) } for v in &s[0].ys { c.mixf(*v) }
    let what = || format!("{:?}", s[0]);
    let res = match call(&s, "t", None, None, p.to_str(), true) { Ok(v) => v, Err(e) => return c.fail("panic", format!("{e}; {}", what())) };
    let fits = |v: &[f64]| { let (a, b) = bounds(v.iter().copied()); let q = (b - a).abs() * 0.03; ((b + q) - (a - q)).is_finite() };
    let fits = fits(&s[0].xs) && fits(&s[0].ys);
    // near the end of the number range an intermediate of the padding may overflow: refusing is right there too
    let roomy = |v: &[f64]| { let (a, b) = bounds(v.iter().copied()); (a.abs().max(b.abs()) * 256.0).is_finite() };
    let roomy = roomy(&s[0].xs) && roomy(&s[0].ys);
    if !c.ok(res.is_ok() || !fits || !roomy, "refusal", || format!("{res:?}; {}", what())) { return }
    if !fits { c.ev("axes that would overflow") }
    if res.is_ok() && fits { judge_file(c, &p, &s, "t", None, None, &what); c.ev("extreme plots"); }
}
fn error(r: &mut Rng, c: &mut Case) {
    let t = Tmp::new(); let p = t.p(&format!("e.{EXT}"));
    let n = match r.below(6) { 0 => 0, 1 => 1, 2 => 2, _ => r.int(3, 200) as usize };
    let (a, b) = match r.below(6) { 0 => (0.0, r.normal()), 1 => { let a = r.normal() * 5.0; (a, a) } 2 => (r.int(-4, 0) as f64, r.int(1, 5) as f64), 3 => (r.normal() * 1e-3, r.normal() * 1e6), _ => (r.normal(), r.normal()) };
    let kind = r.below(8); let k = r.logu(1e-6, 1e6); let seed = r.u64();
    for v in [a, b, k, n as f64] { c.mixf(v) } c.mix(kind as u64);
    let (f, g): (Box<dyn Fn(f64) -> f64>, Box<dyn Fn(f64) -> f64>) = match kind {
        0 => (Box::new(move |x| k * x.sin()), Box::new(move |x| k * (x - x * x * x / 6.0))), 1 => (Box::new(move |x| k / x), Box::new(|x| x)), 2 => (Box::new(|x| x.sqrt()), Box::new(|x| x.ln())),
        3 => (Box::new(move |_| k), Box::new(|_| 0.25)), 4 => (Box::new(|_| f64::NAN), Box::new(|x| x)), 5 => (Box::new(move |x| if x.to_bits() % 5 == 0 { f64::INFINITY } else { k * x * x }), Box::new(|x| if x.to_bits() % 7 == 0 { f64::NAN } else { x })),
        6 => (Box::new(move |x| splitmix(x.to_bits() ^ seed) as f64 * 1e-19), Box::new(|_| 0.5)), _ => (Box::new(|x| 1e300 * x), Box::new(|x| -x)) };
    let (fa, fb) = (RefCell::new(vec![]), RefCell::new(vec![]));
    let what = || format!("functions {kind} scale {k} on [{a}, {b}] with {n} samples");
    let res = match guard(|| plot_error_on_grid(|x| { fa.borrow_mut().push(x); f(x) }, |x| { fb.borrow_mut().push(x); g(x) }, a, b, n, p.to_str()).map_err(|e| e.to_string())) { Ok(v) => v, Err(e) => return c.fail("panic", format!("{e}; {}", what())) };
    let (fa, fb) = (fa.into_inner(), fb.into_inner());
    let grid: Vec<f64> = (0..=n).map(|i| a + (b - a) * (i as f64 / n.max(1) as f64)).collect();
    let eps = 4.0 * f64::EPSILON * (a.abs() + b.abs());
    c.ok(fa.len() == n + 1 && fb.len() == n + 1 && grid.iter().zip(fa.iter().zip(&fb)).all(|(w, (u, v))| (w - u).abs() <= eps && (w - v).abs() <= eps), "sampled-elsewhere", || format!("sampled at {:?}; {}", &fa[..fa.len().min(6)], what()));
    let pts: Vec<(f64, f64)> = fa.iter().map(|x| (*x, f(*x) - g(*x))).filter(|q| q.0.is_finite() && q.1.is_finite()).collect();
    let (ya, yb) = bounds(pts.iter().map(|q| q.1));
    if pts.len() < n + 1 { c.ev("grids with undefined errors") }
    if pts.is_empty() { c.ok(res.is_err(), "refusal", || format!("{res:?}; {}", what())); c.ev("errors nowhere defined"); return }
    if !c.ok(res.is_ok(), "refusal", || format!("{res:?}; {}", what())) { return }
    #[cfg(not(feature = "viz"))]
    { let im = match Img::read(&p) { Ok(i) => i, Err(e) => return c.fail("no-file", format!("{e}; {}", what())) };
      let fr = im.frame(); let mut g = vec![];
      for q in &pts { match (at(q.0, a, b, fr[0], fr[1]), at(q.1, ya, yb, fr[2], fr[3])) { (Some((x, s)), Some((y, t))) if s < 2.0 && t < 2.0 => g.push((x, y)), _ => { c.ev("axes without extent"); return } } }
      if !c.ok(im.w == 1200 && im.h == 400 && fr[1] - fr[0] > 1000.0 && fr[2] - fr[3] > 250.0, "frame", || format!("{} by {}, axes {fr:?}; {}", im.w, im.h, what())) { return }
      bitmap::black(c, &im, &g, fr, &what); }
    #[cfg(feature = "viz")]
    {
    let text = match fs::read_to_string(&p) { Ok(s) => s, Err(e) => return c.fail("no-file", format!("{e}; {}", what())) };
    let els = match parse(&text) { Ok(e) => e, Err(e) => return c.fail("malformed-file", format!("{e}; {}", what())) };
    let line = els.iter().filter_map(|e| if let El::Path(p, ..) = e { Some(p) } else { None }).next_back();
    let Some(d) = line else { return c.fail("no-line", what()) };
    if !c.ok(d.len() == pts.len(), "line-points", || format!("{} vertices for {} defined errors; {}", d.len(), pts.len(), what())) { return }
    let Some(fr) = frame(&els) else { c.ev("error plots without a grid"); return };
    for (q, d) in pts.iter().zip(d) { for (axis, v, lo, hi, s, e, g) in [("x", q.0, a, b, fr[0], fr[1], d.0), ("y", q.1, ya, yb, fr[2], fr[3], d.1)] {
        if let Some((w, tol)) = at(v, lo, hi, s, e) { if !c.ok((g - w).abs() <= tol, "misplaced-point", || format!("{q:?} drawn at {axis} pixel {g}, expected {w}; {}", what())) { return } c.ev("error points placed"); } else { c.ev("axes without extent") } } }
    }
    c.ev("error plots");
}
/// what the live follower draws is what it holds
fn render(r: &mut Rng, c: &mut Case) {
    let t = Tmp::new(); let (csv, out) = (t.p("in.csv"), t.p(&format!("out.{EXT}")));
    let k = 1 + r.below(4); let names: Vec<String> = (0..k).map(|i| format!("c{i}")).collect();
    let cfg = CsvRealtimeConfig { csv_path: csv.clone(), output_path: out.clone(), title: words(r), x_column: "t".into(), y_columns: names.clone(), x_label: r.chance(0.7).then(|| words(r)), y_label: r.chance(0.7).then(|| words(r)), style: if r.chance(0.5) { PlotStyle::Line } else { PlotStyle::Points }, has_header: true, poll_hz: 5.0, max_points: *r.pick(&[None, Some(5), Some(20)]) };
    let rows = match r.below(5) { 0 => 0, 1 => 1, _ => r.below(50) };
    let mut text = format!("t,{}\n", names.join(",")); let mut want: Vec<Vec<f64>> = vec![vec![]; k + 1];
    for i in 0..rows { let v: Vec<f64> = (0..=k).map(|j| if j == 0 { i as f64 * 0.25 } else { r.normal() * 10f64.powi(j as i32) }).collect(); text += &(v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",") + "\n"); for (w, x) in want.iter_mut().zip(&v) { w.push(*x) } }
    if let Some(m) = cfg.max_points { for w in &mut want { let d = w.len().saturating_sub(m); w.drain(..d); } }
    fs::write(&csv, &text).unwrap(); c.mix(hash_str(&text));
    let what = || format!("{cfg:?} rows {rows}");
    let (title, xl, yl, style) = (cfg.title.clone(), cfg.x_label.clone(), cfg.y_label.clone(), cfg.style);
    let mut p = CsvRealtimePlotter::new(cfg.clone());
    match guard(|| { p.update_once().map_err(|e| e.to_string())?; p.render().map_err(|e| e.to_string()) }) { Ok(Ok(())) => {} e => return c.fail("render-failed", format!("{e:?}; {}", what())) }
    if rows == 0 { c.ok(!out.exists(), "drew-nothing", what); c.ev("nothing to render"); return }
    let ss: Vec<S> = (0..k).map(|i| S { xs: want[0].clone(), ys: want[i + 1].clone(), label: Some(names[i].clone()), style }).collect();
    judge_file(c, &out, &ss, &title, xl.as_deref(), yl.as_deref(), &what);
    c.ev("renders");
}
fn refused(r: &mut Rng, c: &mut Case) {
    let t = Tmp::new(); let p = t.p(&format!("p.{EXT}"));
    match r.below(4) {
        0 => { let g = guard(|| plot_series(&[], "t", None, None, p.to_str()).is_ok()); c.mix(1); c.ok(g.is_err(), "empty-accepted", || format!("{g:?}")); }
        1 => { let mut s = data(r, 3); let i = r.below(3); s[i].ys.push(1.0); c.mix(hash_str(&format!("{s:?}"))); let g = call(&s, "t", None, None, p.to_str(), false); c.ok(g.is_err() && !p.exists(), "mismatch-accepted", || format!("{g:?} {s:?}")); }
        2 => { let q = t.p(&format!("missing/p.{EXT}")); let s = [S { xs: vec![0.0, r.normal()], ys: vec![1.0, r.normal()], label: None, style: PlotStyle::Line }]; c.mixf(s[0].xs[1]); let g = call(&s, "t", None, None, q.to_str(), true); c.ok(matches!(g, Ok(Err(_))), "unsaved-but-ok", || format!("{g:?}")); }
        _ => { let q = t.p(&format!("missing/p.{EXT}")); let b = r.range(1.0, 9.0); c.mixf(b); let g = guard(|| plot_error_on_grid(|x| x, |x| x * x, 0.0, b, 10, q.to_str()).map_err(|e| e.to_string())); c.ok(matches!(g, Ok(Err(_))), "unsaved-but-ok", || format!("{g:?}")); }
    }
    c.ev("refused plots");
}
#[cfg(not(feature = "viz"))]
fn main() {
    let mut x = Ctx::from_args("C32");
    x.family("series-image", 400, 6_000, series);
    x.family("extremes-image", 300, 3_000, extremes);
    x.family("error-image", 400, 4_000, error);
    x.family("render-image", 100, 1_000, render);
    x.family("refused", 200, 1_000, refused);
    for (e, n) in [("images", 200), ("marks found", 1000), ("line pixels found", 20_000), ("legend entries", 100), ("error points placed", 5_000), ("renders", 40), ("refused plots", 50)] { x.require(e, n) }
    let _ = fs::remove_dir_all(root());
    x.finish()
}
#[cfg(feature = "viz")]
fn main() {
    let mut x = Ctx::from_args("C32");
    x.family("series", 2_500, 40_000, series);
    x.family("extremes", 1_500, 30_000, extremes);
    x.family("error-grid", 1_500, 30_000, error);
    x.family("render", 600, 8_000, render);
    x.family("refused", 400, 2_000, refused);
    for (e, n) in [("plots", 1000), ("lines", 1000), ("point series", 1000), ("points placed", 20_000), ("legend entries", 1000), ("series without finite points", 100), ("nothing finite to plot", 30), ("extreme plots", 300), ("axes that would overflow", 50), ("error plots", 500), ("error points placed", 20_000), ("grids with undefined errors", 200), ("errors nowhere defined", 50), ("renders", 200), ("refused plots", 100)] { x.require(e, n) }
    let _ = fs::remove_dir_all(root());
    x.finish()
}
