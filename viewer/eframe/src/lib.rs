//! Stand-in for eframe: no window; frames are run on request and what they show is written to stdout.
//!   frame            run one frame and report it
//!   click<TAB>text<TAB>k   a frame, then press and release on the k-th occurrence (left to right) of a text, report the last frame
pub use egui;
use std::io::{BufRead, Write};

pub struct Frame(());
pub struct CreationContext<'s> { pub egui_ctx: egui::Context, _p: std::marker::PhantomData<&'s ()> }
#[derive(Debug)]
pub enum Error { AppCreation(Box<dyn std::error::Error + Send + Sync>) }
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { match self { Error::AppCreation(e) => write!(f, "{e}") } } }
impl std::error::Error for Error {}
pub type Result<T = (), E = Error> = std::result::Result<T, E>;
pub trait App { fn update(&mut self, ctx: &egui::Context, frame: &mut Frame); }
#[derive(Clone, Default)]
pub struct NativeOptions { pub viewport: egui::ViewportBuilder, pub vsync: bool, pub centered: bool }
pub type AppCreator = Box<dyn FnOnce(&CreationContext<'_>) -> std::result::Result<Box<dyn App>, Box<dyn std::error::Error + Send + Sync>>>;

/// the texts that can be seen, with where
fn texts(s: &egui::Shape, clip: egui::Rect, out: &mut Vec<(f32, f32, String)>) {
    match s {
        egui::Shape::Vec(v) => v.iter().for_each(|s| texts(s, clip, out)),
        egui::Shape::Text(t) => { let c = t.visual_bounding_rect().center(); if clip.contains(c) { out.push((c.x, c.y, t.galley.text().to_string())) } }
        _ => {}
    }
}
fn esc(s: &str) -> String { s.replace('%', "%25").replace('\t', "%09").replace('\n', "%0A").replace('\r', "%0D") }

pub fn run_native(_: &str, _: NativeOptions, make: AppCreator) -> Result<()> {
    let ctx = egui::Context::default();
    let mut app = make(&CreationContext { egui_ctx: ctx.clone(), _p: std::marker::PhantomData }).map_err(Error::AppCreation)?;
    let mut t = 0.0; let mut shown: Vec<(f32, f32, String)> = vec![];
    let mut frame = |events: Vec<egui::Event>| {
        t += 1.0 / 60.0;
        let inp = egui::RawInput { screen_rect: Some(egui::Rect::from_min_size(egui::Pos2::ZERO, egui::vec2(1600.0, 1200.0))), time: Some(t), events, focused: true, ..Default::default() };
        let _ = egui_plot::take_seen();
        let out = ctx.run(inp, |ctx| app.update(ctx, &mut Frame(())));
        let mut v = vec![]; out.shapes.iter().for_each(|s| texts(&s.shape, s.clip_rect, &mut v));
        (v, egui_plot::take_seen())
    };
    let stdout = std::io::stdout();
    println!("READY"); stdout.lock().flush().unwrap();
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap(); let f: Vec<&str> = l.split('\t').collect();
        let last = match f[0] {
            "frame" => frame(vec![]),
            "click" => {
                shown = frame(vec![]).0; // where things are now
                let mut at: Vec<_> = shown.iter().filter(|s| s.2 == f[1]).collect(); at.sort_by(|a, b| a.0.total_cmp(&b.0));
                let Some(p) = at.get(f[2].parse::<usize>().unwrap()).map(|s| egui::pos2(s.0, s.1)) else { println!("NOTEXT\nEND"); stdout.lock().flush().unwrap(); continue };
                let b = |pressed| egui::Event::PointerButton { pos: p, button: egui::PointerButton::Primary, pressed, modifiers: Default::default() };
                frame(vec![egui::Event::PointerMoved(p)]); frame(vec![b(true)]); frame(vec![b(false)]); frame(vec![egui::Event::PointerGone])
            }
            _ => break,
        };
        shown = last.0;
        let mut o = String::new();
        for (x, y, s) in &shown { o += &format!("T\t{x}\t{y}\t{}\n", esc(s)) }
        for p in &last.1 { o += &format!("P\t{}\t{}\n", esc(&p.x_label), esc(&p.y_label)); for (n, v) in &p.lines { o += &format!("L\t{}", esc(n)); for q in v { o += &format!("\t{:x}\t{:x}", q[0].to_bits(), q[1].to_bits()) } o.push('\n') } }
        o += "END\n"; let mut h = stdout.lock(); h.write_all(o.as_bytes()).unwrap(); h.flush().unwrap();
    }
    Ok(())
}
