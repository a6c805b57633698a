//! A logger that formats every record and throws the text away.
struct Formats;
impl log::Log for Formats {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        use std::fmt::Write;
        struct Null(usize);
        impl Write for Null {
            fn write_str(&mut self, s: &str) -> std::fmt::Result {
                self.0 += s.len();
                Ok(())
            }
        }
        let mut n = Null(0);
        let _ = write!(n, "{} {}", r.target(), r.args());
    }
    fn flush(&self) {}
}
pub fn install() {
    let _ = log::set_boxed_logger(Box::new(Formats));
    log::set_max_level(log::LevelFilter::Trace);
}
