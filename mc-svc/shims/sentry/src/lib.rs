//! Stand-in for `sentry`: everything is accepted and dropped.
use std::sync::Arc;

pub mod protocol {
    pub use serde_json::{Map, Value};
    #[derive(Clone, Debug)]
    pub enum Context {
        Other(std::collections::BTreeMap<String, Value>),
    }
    impl From<std::collections::BTreeMap<String, Value>> for Context {
        fn from(m: std::collections::BTreeMap<String, Value>) -> Self {
            Context::Other(m)
        }
    }
    #[derive(Clone, Debug, Default)]
    pub struct Event<'a>(std::marker::PhantomData<&'a ()>);
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum SpanStatus {
        Ok,
        InternalError,
        UnknownError,
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum SessionStatus {
        Ok,
        Exited,
        Crashed,
        Abnormal,
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Level {
        Debug,
        Info,
        Warning,
        Error,
        Fatal,
    }
}
pub use protocol::Level;

pub mod types {
    pub use debugid::{CodeId, DebugId};
    pub use uuid::Uuid;
    #[derive(Clone, Debug, PartialEq, Eq, Hash)]
    pub struct Dsn(String);
    impl std::str::FromStr for Dsn {
        type Err = String;
        fn from_str(s: &str) -> Result<Self, String> {
            if s.contains("://") {
                Ok(Dsn(s.into()))
            } else {
                Err("invalid dsn".into())
            }
        }
    }
    impl std::fmt::Display for Dsn {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str(&self.0)
        }
    }
    impl<'de> serde::Deserialize<'de> for Dsn {
        fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            String::deserialize(d)?.parse().map_err(serde::de::Error::custom)
        }
    }
    impl serde::Serialize for Dsn {
        fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            s.serialize_str(&self.0)
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Scope;
impl Scope {
    pub fn set_tag<V: ToString>(&mut self, _k: &str, _v: V) {}
    pub fn remove_tag(&mut self, _k: &str) {}
    pub fn set_extra(&mut self, _k: &str, _v: protocol::Value) {}
    pub fn set_context<C: Into<protocol::Context>>(&mut self, _k: &str, _v: C) {}
    pub fn set_level(&mut self, _l: impl Into<Option<Level>>) {}
    pub fn set_transaction(&mut self, _t: Option<&str>) {}
    pub fn set_fingerprint(&mut self, _f: Option<&[&str]>) {}
    pub fn set_span(&mut self, _s: Option<TransactionOrSpan>) {}
    pub fn get_span(&self) -> Option<TransactionOrSpan> {
        None
    }
    pub fn clear(&mut self) {}
}

#[derive(Clone, Debug)]
pub struct Transaction;
impl Transaction {
    pub fn finish(self) {}
    pub fn set_data(&self, _k: &str, _v: protocol::Value) {}
    pub fn set_status(&self, _s: protocol::SpanStatus) {}
    pub fn start_child(&self, _o: &str, _d: &str) -> Transaction {
        Transaction
    }
    pub fn iter_headers(&self) -> std::vec::IntoIter<(&'static str, String)> {
        vec![].into_iter()
    }
}
#[derive(Clone, Debug)]
pub struct TransactionOrSpan(Transaction);
impl From<Transaction> for TransactionOrSpan {
    fn from(t: Transaction) -> Self {
        TransactionOrSpan(t)
    }
}
impl TransactionOrSpan {
    pub fn iter_headers(&self) -> std::vec::IntoIter<(&'static str, String)> {
        vec![].into_iter()
    }
    pub fn finish(self) {}
    pub fn start_child(&self, _o: &str, _d: &str) -> Transaction {
        Transaction
    }
}
pub type Span = Transaction;
#[derive(Clone, Debug)]
pub struct TransactionContext;
impl TransactionContext {
    pub fn new(_n: &str, _o: &str) -> Self {
        TransactionContext
    }
    pub fn continue_from_span(_n: &str, _o: &str, _s: Option<TransactionOrSpan>) -> Self {
        TransactionContext
    }
}
pub fn start_transaction(_c: TransactionContext) -> Transaction {
    Transaction
}

pub fn configure_scope<R>(f: impl FnOnce(&mut Scope) -> R) -> R {
    f(&mut Scope)
}
pub fn with_scope<C: FnOnce(&mut Scope), F: FnOnce() -> R, R>(c: C, f: F) -> R {
    c(&mut Scope);
    f()
}
pub fn capture_error<E: std::error::Error + ?Sized>(_e: &E) -> types::Uuid {
    types::Uuid::nil()
}
pub fn capture_message(_m: &str, _l: Level) -> types::Uuid {
    types::Uuid::nil()
}
pub fn capture_event(_e: protocol::Event<'_>) -> types::Uuid {
    types::Uuid::nil()
}
pub fn end_session() {}
pub fn end_session_with_status(_s: protocol::SessionStatus) {}
pub fn start_session() {}

pub struct ScopeGuard;
impl Drop for ScopeGuard {
    fn drop(&mut self) {}
}
#[derive(Debug, Default)]
pub struct Hub;
impl Hub {
    pub fn current() -> Arc<Hub> {
        Arc::new(Hub)
    }
    pub fn main() -> Arc<Hub> {
        Arc::new(Hub)
    }
    pub fn new_from_top<H: AsRef<Hub>>(_h: H) -> Hub {
        Hub
    }
    pub fn with_active<R>(f: impl FnOnce(&Arc<Hub>) -> R) -> R {
        f(&Hub::current())
    }
    pub fn end_session_with_status(&self, _s: protocol::SessionStatus) {}
    pub fn push_scope(&self) -> ScopeGuard {
        ScopeGuard
    }
    pub fn run<R>(_h: Arc<Hub>, f: impl FnOnce() -> R) -> R {
        f()
    }
    pub fn configure_scope<R>(&self, f: impl FnOnce(&mut Scope) -> R) -> R {
        f(&mut Scope)
    }
    pub fn with_scope<C: FnOnce(&mut Scope), F: FnOnce() -> R, R>(&self, c: C, f: F) -> R {
        c(&mut Scope);
        f()
    }
}
impl AsRef<Hub> for Hub {
    fn as_ref(&self) -> &Hub {
        self
    }
}
pub trait SentryFutureExt: Sized {
    fn bind_hub<H: Into<Arc<Hub>>>(self, _hub: H) -> Self {
        self
    }
}
impl<F: std::future::Future> SentryFutureExt for F {}

pub mod integrations {
    pub mod anyhow {
        pub fn capture_anyhow(_e: &::anyhow::Error) -> crate::types::Uuid {
            crate::types::Uuid::nil()
        }
    }
    pub mod tower {
        macro_rules! identity {
            ($($name:ident $new:ident)*) => {$(
                #[derive(Clone, Debug)]
                pub struct $name;
                impl $name {
                    pub fn $new() -> Self {
                        $name
                    }
                }
                impl<S> tower_layer::Layer<S> for $name {
                    type Service = S;
                    fn layer(&self, inner: S) -> S {
                        inner
                    }
                }
            )*};
        }
        identity!(NewSentryLayer new_from_top SentryHttpLayer with_transaction);
    }
    pub mod tracing {
        pub fn layer() -> tracing_subscriber::Identity {
            tracing_subscriber::Identity
        }
    }
}
