//! Stand-in for egui_plot: records what would be drawn, in data coordinates.
use std::cell::RefCell;

#[derive(Clone, Debug, Default)]
pub struct Seen { pub x_label: String, pub y_label: String, pub lines: Vec<(String, Vec<[f64; 2]>)> }
thread_local!(static SEEN: RefCell<Vec<Seen>> = const { RefCell::new(vec![]) });
pub fn take_seen() -> Vec<Seen> { SEEN.with(|s| std::mem::take(&mut *s.borrow_mut())) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Corner { LeftTop, RightTop, LeftBottom, RightBottom }
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Legend;
impl Legend { pub fn position(self, _: Corner) -> Self { self } pub fn background_alpha(self, _: f32) -> Self { self } }

#[derive(Clone, Debug, PartialEq)]
pub struct PlotPoint { pub x: f64, pub y: f64 }
impl PlotPoint { pub fn new(x: impl Into<f64>, y: impl Into<f64>) -> Self { PlotPoint { x: x.into(), y: y.into() } } }
impl From<[f64; 2]> for PlotPoint { fn from(p: [f64; 2]) -> Self { PlotPoint { x: p[0], y: p[1] } } }
pub struct PlotPoints(pub Vec<[f64; 2]>);
impl PlotPoints {
    pub fn new(p: Vec<[f64; 2]>) -> Self { PlotPoints(p) }
    pub fn from_ys_f64(y: &[f64]) -> Self { PlotPoints(y.iter().enumerate().map(|(i, y)| [i as f64, *y]).collect()) }
}
impl From<Vec<[f64; 2]>> for PlotPoints { fn from(p: Vec<[f64; 2]>) -> Self { PlotPoints(p) } }
impl From<[f64; 2]> for PlotPoints { fn from(p: [f64; 2]) -> Self { PlotPoints(vec![p]) } }
impl FromIterator<[f64; 2]> for PlotPoints { fn from_iter<I: IntoIterator<Item = [f64; 2]>>(i: I) -> Self { PlotPoints(i.into_iter().collect()) } }

pub struct Line { name: String, points: Vec<[f64; 2]> }
impl Line {
    pub fn new(p: impl Into<PlotPoints>) -> Self { Line { name: String::new(), points: p.into().0 } }
    pub fn name(mut self, n: impl ToString) -> Self { self.name = n.to_string(); self }
    pub fn color(self, _: impl Into<egui::Color32>) -> Self { self }
    pub fn width(self, _: impl Into<f32>) -> Self { self }
    pub fn highlight(self, _: bool) -> Self { self }
}
pub struct PlotUi { seen: Seen }
impl PlotUi { pub fn line(&mut self, l: Line) { if !l.points.is_empty() { self.seen.lines.push((l.name, l.points)) } } }
pub struct PlotResponse<R> { pub inner: R }
pub struct Plot { seen: Seen }
impl Plot {
    pub fn new(_: impl std::hash::Hash) -> Self { Plot { seen: Seen::default() } }
    pub fn legend(self, _: Legend) -> Self { self }
    pub fn x_axis_label(mut self, l: impl Into<egui::WidgetText>) -> Self { self.seen.x_label = l.into().text().to_string(); self }
    pub fn y_axis_label(mut self, l: impl Into<egui::WidgetText>) -> Self { self.seen.y_label = l.into().text().to_string(); self }
    pub fn allow_zoom<T>(self, _: T) -> Self { self }
    pub fn allow_drag<T>(self, _: T) -> Self { self }
    pub fn allow_scroll<T>(self, _: T) -> Self { self }
    pub fn height(self, _: f32) -> Self { self }
    pub fn width(self, _: f32) -> Self { self }
    pub fn show<R>(self, _ui: &mut egui::Ui, f: impl FnOnce(&mut PlotUi) -> R) -> PlotResponse<R> {
        let mut p = PlotUi { seen: self.seen };
        let inner = f(&mut p);
        SEEN.with(|s| s.borrow_mut().push(p.seen));
        PlotResponse { inner }
    }
}
