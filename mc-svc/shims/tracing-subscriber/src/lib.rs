//! Stand-in for `tracing-subscriber` (its `json` feature is not installed): no logging.
pub struct Sub;
pub struct Identity;
macro_rules! b {
    ($($n:ident),*) => { $(pub fn $n<T>(self, _t: T) -> Self { self })* };
}
impl Sub {
    b!(with_timer, with_target, with_env_filter, flatten_event, with_current_span, with_span_list, with_file,
       with_line_number, with_writer, with, with_ansi, with_max_level, with_level, with_thread_ids, with_thread_names);
    pub fn json(self) -> Self {
        self
    }
    pub fn pretty(self) -> Self {
        self
    }
    pub fn compact(self) -> Self {
        self
    }
    pub fn finish(self) -> Self {
        self
    }
    pub fn init(self) {}
    pub fn try_init(self) -> Result<(), std::io::Error> {
        Ok(())
    }
}
pub mod fmt {
    pub fn fmt() -> super::Sub {
        super::Sub
    }
    pub trait MakeWriter<'a> {}
    impl<'a, F, W> MakeWriter<'a> for F
    where
        F: Fn() -> W,
        W: std::io::Write,
    {
    }
    pub mod time {
        pub struct UtcTime;
        impl UtcTime {
            pub fn rfc_3339() -> Self {
                UtcTime
            }
        }
    }
}
pub mod prelude {}
pub mod util {
    pub trait SubscriberInitExt {}
}
pub fn registry() -> Sub {
    Sub
}
#[derive(Clone, Debug)]
pub struct EnvFilter;
impl EnvFilter {
    pub fn new(_s: impl AsRef<str>) -> Self {
        EnvFilter
    }
}
