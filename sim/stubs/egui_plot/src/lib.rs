//! Stand-in for egui_plot: records what would be drawn instead of drawing it.
use egui::{Color32, Response, Stroke, Ui, Vec2};
use std::hash::Hash;
use std::ops::RangeInclusive;
use std::sync::Mutex;

#[derive(Clone, Debug, Default)]
pub struct Drawn {
    pub name: String,
    pub points: Vec<[f64; 2]>,
}
static DRAWN: Mutex<Vec<Drawn>> = Mutex::new(Vec::new());
/// Everything drawn since the last call.
pub fn take_drawn() -> Vec<Drawn> {
    std::mem::take(&mut *DRAWN.lock().unwrap())
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct PlotPoint {
    pub x: f64,
    pub y: f64,
}
impl PlotPoint {
    pub fn new(x: impl Into<f64>, y: impl Into<f64>) -> Self {
        Self { x: x.into(), y: y.into() }
    }
}
impl From<[f64; 2]> for PlotPoint {
    fn from([x, y]: [f64; 2]) -> Self {
        Self { x, y }
    }
}
pub struct PlotPoints(Vec<[f64; 2]>);
impl From<[f64; 2]> for PlotPoints {
    fn from(p: [f64; 2]) -> Self {
        Self(vec![p])
    }
}
impl From<Vec<[f64; 2]>> for PlotPoints {
    fn from(p: Vec<[f64; 2]>) -> Self {
        Self(p)
    }
}
impl FromIterator<[f64; 2]> for PlotPoints {
    fn from_iter<T: IntoIterator<Item = [f64; 2]>>(it: T) -> Self {
        Self(it.into_iter().collect())
    }
}
impl PlotPoints {
    pub fn new(points: Vec<[f64; 2]>) -> Self {
        Self(points)
    }
    pub fn from_ys_f64(ys: &[f64]) -> Self {
        Self(ys.iter().enumerate().map(|(i, y)| [i as f64, *y]).collect())
    }
    pub fn points(&self) -> Vec<PlotPoint> {
        self.0.iter().map(|p| PlotPoint { x: p[0], y: p[1] }).collect()
    }
}
macro_rules! item {
    ($n:ident) => {
        pub struct $n(Drawn);
        impl $n {
            pub fn new(p: impl Into<PlotPoints>) -> Self {
                Self(Drawn { name: String::new(), points: p.into().0 })
            }
            #[allow(clippy::needless_pass_by_value)]
            pub fn name(mut self, n: impl ToString) -> Self {
                self.0.name = n.to_string();
                self
            }
            pub fn color(self, _: impl Into<Color32>) -> Self {
                self
            }
            pub fn stroke(self, _: impl Into<Stroke>) -> Self {
                self
            }
            pub fn width(self, _: impl Into<f32>) -> Self {
                self
            }
            pub fn radius(self, _: impl Into<f32>) -> Self {
                self
            }
            pub fn highlight(self, _: bool) -> Self {
                self
            }
            pub fn allow_hover(self, _: bool) -> Self {
                self
            }
            pub fn fill(self, _: impl Into<f32>) -> Self {
                self
            }
            pub fn filled(self, _: bool) -> Self {
                self
            }
            pub fn style(self, _: LineStyle) -> Self {
                self
            }
            pub fn id(self, _: egui::Id) -> Self {
                self
            }
        }
    };
}
item!(Line);
item!(Points);
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum LineStyle {
    Solid,
    Dotted { spacing: f32 },
    Dashed { length: f32 },
}
impl LineStyle {
    pub fn dashed_loose() -> Self {
        Self::Dashed { length: 10.0 }
    }
    pub fn dashed_dense() -> Self {
        Self::Dashed { length: 5.0 }
    }
    pub fn dotted_loose() -> Self {
        Self::Dotted { spacing: 10.0 }
    }
    pub fn dotted_dense() -> Self {
        Self::Dotted { spacing: 5.0 }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Corner {
    LeftTop,
    RightTop,
    LeftBottom,
    RightBottom,
}
#[derive(Clone, Debug, Default)]
pub struct Legend;
impl Legend {
    pub fn position(self, _: Corner) -> Self {
        self
    }
    pub fn text_style(self, _: egui::TextStyle) -> Self {
        self
    }
    pub fn background_alpha(self, _: f32) -> Self {
        self
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct PlotBounds;
pub struct PlotUi {
    items: Vec<Drawn>,
}
impl PlotUi {
    pub fn line(&mut self, l: Line) {
        self.items.push(l.0);
    }
    pub fn points(&mut self, p: Points) {
        self.items.push(p.0);
    }
    pub fn pointer_coordinate(&self) -> Option<PlotPoint> {
        None
    }
}
pub struct PlotResponse<R> {
    pub inner: R,
    pub response: Response,
}
pub struct Plot;
macro_rules! opts {
    ($($n:ident: $t:ty),*) => { $(pub fn $n(self, _: $t) -> Self { self })* };
}
impl Plot {
    pub fn new(_id: impl Hash) -> Self {
        Plot
    }
    opts!(legend: Legend, data_aspect: f32, view_aspect: f32, width: f32, height: f32, min_size: Vec2, show_x: bool, show_y: bool, show_background: bool,
        allow_zoom: bool, allow_drag: bool, allow_scroll: bool, allow_boxed_zoom: bool, allow_double_click_reset: bool, auto_bounds: egui::Vec2b,
        center_x_axis: bool, center_y_axis: bool, include_x: f64, include_y: f64, set_margin_fraction: Vec2, show_axes: bool, show_grid: bool);
    pub fn x_axis_label(self, _: impl Into<egui::WidgetText>) -> Self {
        self
    }
    pub fn y_axis_label(self, _: impl Into<egui::WidgetText>) -> Self {
        self
    }
    pub fn x_axis_formatter<T>(self, _: T) -> Self {
        self
    }
    pub fn y_axis_formatter<T>(self, _: T) -> Self {
        self
    }
    pub fn label_formatter<T>(self, _: T) -> Self {
        self
    }
    pub fn default_x_bounds(self, _: RangeInclusive<f64>) -> Self {
        self
    }
    pub fn show<R>(self, ui: &mut Ui, build: impl FnOnce(&mut PlotUi) -> R) -> PlotResponse<R> {
        let mut p = PlotUi { items: vec![] };
        let inner = build(&mut p);
        DRAWN.lock().unwrap().append(&mut p.items);
        let size = ui.available_size_before_wrap().max(Vec2::splat(1.0)) - egui::vec2(0.0, 60.0);
        PlotResponse { inner, response: ui.allocate_response(size.max(Vec2::splat(1.0)), egui::Sense::hover()) }
    }
}
