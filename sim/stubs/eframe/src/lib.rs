//! Stand-in for eframe's native window: the same surface for an `App`, whose frames are driven by
//! the simulator instead of a window system.
pub use egui;
pub use egui::{emath, epaint};

pub mod epi {
    pub use super::*;
}
pub trait Storage {
    fn get_string(&self, key: &str) -> Option<String>;
    fn set_string(&mut self, key: &str, value: String);
    fn flush(&mut self);
}
pub struct Frame {
    pub _private: (),
}
impl Frame {
    pub fn is_web(&self) -> bool {
        false
    }
    pub fn storage(&self) -> Option<&dyn Storage> {
        None
    }
    pub fn storage_mut(&mut self) -> Option<&mut (dyn Storage + 'static)> {
        None
    }
}
pub trait App {
    fn update(&mut self, ctx: &egui::Context, frame: &mut Frame);
    fn save(&mut self, _storage: &mut dyn Storage) {}
    fn on_exit(&mut self) {}
    fn auto_save_interval(&self) -> std::time::Duration {
        std::time::Duration::from_secs(30)
    }
    fn clear_color(&self, _visuals: &egui::Visuals) -> [f32; 4] {
        [0.05, 0.05, 0.05, 1.0]
    }
    fn persist_egui_memory(&self) -> bool {
        true
    }
    fn raw_input_hook(&mut self, _ctx: &egui::Context, _raw_input: &mut egui::RawInput) {}
}
pub struct CreationContext<'s> {
    pub egui_ctx: egui::Context,
    pub storage: Option<&'s dyn Storage>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Theme {
    Dark,
    Light,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub enum HardwareAcceleration {
    Required,
    #[default]
    Preferred,
    Off,
}
#[derive(Clone, Debug)]
pub struct NativeOptions {
    pub viewport: egui::ViewportBuilder,
    pub vsync: bool,
    pub multisampling: u16,
    pub depth_buffer: u8,
    pub stencil_buffer: u8,
    pub hardware_acceleration: HardwareAcceleration,
    pub follow_system_theme: bool,
    pub default_theme: Theme,
    pub run_and_return: bool,
    pub centered: bool,
    pub persist_window: bool,
    pub dithering: bool,
}
impl Default for NativeOptions {
    fn default() -> Self {
        Self {
            viewport: Default::default(),
            vsync: true,
            multisampling: 0,
            depth_buffer: 0,
            stencil_buffer: 0,
            hardware_acceleration: HardwareAcceleration::Preferred,
            follow_system_theme: false,
            default_theme: Theme::Dark,
            run_and_return: true,
            centered: false,
            persist_window: true,
            dithering: true,
        }
    }
}
pub type DynError = Box<dyn std::error::Error + Send + Sync>;
pub type AppCreator = Box<dyn FnOnce(&CreationContext<'_>) -> std::result::Result<Box<dyn App>, DynError>>;
#[derive(Debug)]
pub enum Error {
    AppCreation(DynError),
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Error::AppCreation(e) => write!(f, "app creation error: {e}"),
        }
    }
}
impl std::error::Error for Error {}
pub type Result<T = (), E = Error> = std::result::Result<T, E>;

type Driver = fn(&mut dyn App, &egui::Context, &mut Frame);
static DRIVER: std::sync::Mutex<Option<Driver>> = std::sync::Mutex::new(None);
/// The simulator's event loop.
pub fn set_driver(d: Driver) {
    *DRIVER.lock().unwrap() = Some(d);
}
pub fn run_native(_name: &str, _options: NativeOptions, create: AppCreator) -> Result<()> {
    let ctx = egui::Context::default();
    let mut app = create(&CreationContext { egui_ctx: ctx.clone(), storage: None }).map_err(Error::AppCreation)?;
    let d = DRIVER.lock().unwrap().expect("no driver");
    d(&mut *app, &ctx, &mut Frame { _private: () });
    app.on_exit();
    Ok(())
}
pub fn run_simple_native(name: &str, options: NativeOptions, f: impl FnMut(&egui::Context, &mut Frame) + 'static) -> Result<()> {
    struct Simple<F>(F);
    impl<F: FnMut(&egui::Context, &mut Frame)> App for Simple<F> {
        fn update(&mut self, ctx: &egui::Context, frame: &mut Frame) {
            (self.0)(ctx, frame)
        }
    }
    run_native(name, options, Box::new(|_| Ok(Box::new(Simple(f)))))
}
