//! Stand-in for `aws-sdk-s3`: `get_object` is answered by a scripted function of the thread.
use bytes::Bytes;
use futures::stream::BoxStream;
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};

pub use aws_config::SdkConfig;

#[derive(Clone, Debug)]
pub struct GetObject {
    pub config: SdkConfig,
    pub bucket: String,
    pub key: String,
}
/// What the harness answers.
pub enum Answer {
    Ok { content_length: Option<i64>, body: BoxStream<'static, Result<Bytes, String>> },
    /// HTTP status, S3 error code, message
    Service(u16, Option<String>, Option<String>),
    /// As `Service`, but decoded by the SDK into its own variant (NoSuchKey, ...)
    Typed(u16, &'static str),
    Timeout,
    Dispatch(String),
}
type Handler = Arc<dyn Fn(GetObject) -> Pin<Box<dyn Future<Output = Answer> + Send>> + Send + Sync>;
thread_local! { static HANDLER: RefCell<Option<Handler>> = const { RefCell::new(None) }; }
pub fn set_handler(h: Option<Handler>) {
    HANDLER.with(|x| *x.borrow_mut() = h)
}

#[derive(Clone, Debug)]
pub struct Client(Arc<SdkConfig>);
impl Client {
    pub fn new(c: &SdkConfig) -> Self {
        Client(Arc::new(c.clone()))
    }
    pub fn get_object(&self) -> operation::get_object::builders::GetObjectFluentBuilder {
        operation::get_object::builders::GetObjectFluentBuilder {
            config: (*self.0).clone(),
            bucket: None,
            key: None,
        }
    }
}
pub mod operation {
    pub mod get_object {
        use crate::*;
        pub mod builders {
            use super::*;
            pub struct GetObjectFluentBuilder {
                pub(crate) config: SdkConfig,
                pub(crate) bucket: Option<String>,
                pub(crate) key: Option<String>,
            }
            impl GetObjectFluentBuilder {
                pub fn bucket(mut self, b: impl Into<String>) -> Self {
                    self.bucket = Some(b.into());
                    self
                }
                pub fn key(mut self, b: impl Into<String>) -> Self {
                    self.key = Some(b.into());
                    self
                }
                pub async fn send(self) -> Result<GetObjectOutput, error::SdkError<GetObjectError>> {
                    use error::*;
                    let req = GetObject {
                        config: self.config,
                        bucket: self.bucket.unwrap_or_default(),
                        key: self.key.unwrap_or_default(),
                    };
                    let Some(h) = HANDLER.with(|x| x.borrow().clone()) else {
                        return Err(SdkError::DispatchFailure("no network".into()));
                    };
                    match h(req).await {
                        Answer::Ok { content_length, body } => Ok(GetObjectOutput {
                            content_length,
                            body: primitives::ByteStream { inner: body },
                        }),
                        Answer::Service(status, code, message) => Err(SdkError::ServiceError(ServiceError {
                            err: GetObjectError { typed: None, code, message },
                            raw: RawResponse { status },
                        })),
                        Answer::Typed(status, t) => Err(SdkError::ServiceError(ServiceError {
                            err: GetObjectError { typed: Some(t), code: Some(t.into()), message: None },
                            raw: RawResponse { status },
                        })),
                        Answer::Timeout => Err(SdkError::TimeoutError("timed out".into())),
                        Answer::Dispatch(s) => Err(SdkError::DispatchFailure(s)),
                    }
                }
            }
        }
        #[derive(Debug)]
        pub struct GetObjectOutput {
            pub content_length: Option<i64>,
            pub body: primitives::ByteStream,
        }
        impl GetObjectOutput {
            pub fn content_length(&self) -> Option<i64> {
                self.content_length
            }
        }
        #[derive(Debug, Clone)]
        pub struct GetObjectError {
            pub(crate) typed: Option<&'static str>,
            pub(crate) code: Option<String>,
            pub(crate) message: Option<String>,
        }
        impl std::fmt::Display for GetObjectError {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "{:?}: {:?}", self.code, self.message)
            }
        }
        impl std::error::Error for GetObjectError {}
    }
}
use operation::get_object::GetObjectError;
pub mod primitives {
    use super::*;
    pub struct ByteStream {
        pub(crate) inner: BoxStream<'static, Result<Bytes, String>>,
    }
    pub mod error {}
    pub mod byte_stream_error {}
    #[derive(Debug)]
    pub struct ByteStreamError(String);
    impl std::fmt::Display for ByteStreamError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str(&self.0)
        }
    }
    impl std::error::Error for ByteStreamError {}
    impl std::fmt::Debug for ByteStream {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("ByteStream")
        }
    }
    impl ByteStream {
        pub fn poll_next(
            mut self: Pin<&mut Self>,
            cx: &mut Context<'_>,
        ) -> Poll<Option<Result<Bytes, ByteStreamError>>> {
            self.inner.as_mut().poll_next(cx).map(|o| o.map(|r| r.map_err(ByteStreamError)))
        }
        pub async fn next(&mut self) -> Option<Result<Bytes, ByteStreamError>> {
            futures::StreamExt::next(&mut self.inner).await.map(|r| r.map_err(ByteStreamError))
        }
    }
}
pub mod error {
    use super::*;
    #[derive(Debug)]
    pub enum SdkError<E> {
        ConstructionFailure(String),
        TimeoutError(String),
        DispatchFailure(String),
        ResponseError(String),
        ServiceError(ServiceError<E>),
    }
    #[derive(Debug)]
    pub struct ServiceError<E> {
        pub(crate) err: E,
        pub(crate) raw: RawResponse,
    }
    impl<E> ServiceError<E> {
        pub fn err(&self) -> &E {
            &self.err
        }
        pub fn raw(&self) -> &RawResponse {
            &self.raw
        }
    }
    #[derive(Debug)]
    pub struct RawResponse {
        pub(crate) status: u16,
    }
    #[derive(Debug, Clone, Copy)]
    pub struct Status(u16);
    impl Status {
        pub fn as_u16(self) -> u16 {
            self.0
        }
        pub fn is_success(self) -> bool {
            (200..300).contains(&self.0)
        }
        pub fn is_client_error(self) -> bool {
            (400..500).contains(&self.0)
        }
        pub fn is_server_error(self) -> bool {
            (500..600).contains(&self.0)
        }
    }
    impl RawResponse {
        pub fn status(&self) -> Status {
            Status(self.status)
        }
    }
    impl<E: std::fmt::Display> std::fmt::Display for SdkError<E> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            match self {
                SdkError::ServiceError(_) => f.write_str("service error"),
                SdkError::TimeoutError(_) => f.write_str("request has timed out"),
                SdkError::DispatchFailure(_) => f.write_str("dispatch failure"),
                SdkError::ConstructionFailure(_) => f.write_str("failed to construct request"),
                SdkError::ResponseError(_) => f.write_str("response error"),
            }
        }
    }
    impl<E: std::fmt::Debug + std::fmt::Display> std::error::Error for SdkError<E> {}
    impl<E> SdkError<E> {
        pub fn as_service_error(&self) -> Option<&E> {
            match self {
                SdkError::ServiceError(e) => Some(&e.err),
                _ => None,
            }
        }
        pub fn raw_response(&self) -> Option<&RawResponse> {
            match self {
                SdkError::ServiceError(e) => Some(&e.raw),
                _ => None,
            }
        }
    }
    pub trait ProvideErrorMetadata {
        fn code(&self) -> Option<&str>;
        fn message(&self) -> Option<&str>;
    }
    impl ProvideErrorMetadata for GetObjectError {
        fn code(&self) -> Option<&str> {
            self.code.as_deref()
        }
        fn message(&self) -> Option<&str> {
            self.message.as_deref()
        }
    }
    impl ProvideErrorMetadata for Error {
        fn code(&self) -> Option<&str> {
            match self {
                Error::NoSuchBucket(e) | Error::NoSuchKey(e) | Error::NotFound(e) | Error::InvalidObjectState(e)
                | Error::Unhandled(e) => e.code.as_deref(),
            }
        }
        fn message(&self) -> Option<&str> {
            match self {
                Error::NoSuchBucket(e) | Error::NoSuchKey(e) | Error::NotFound(e) | Error::InvalidObjectState(e)
                | Error::Unhandled(e) => e.message.as_deref(),
            }
        }
    }
}
#[derive(Debug)]
pub struct Meta {
    code: Option<String>,
    message: Option<String>,
    text: String,
}
#[derive(Debug)]
pub enum Error {
    NoSuchBucket(Meta),
    NoSuchKey(Meta),
    NotFound(Meta),
    InvalidObjectState(Meta),
    Unhandled(Meta),
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Error::NoSuchBucket(m) | Error::NoSuchKey(m) | Error::NotFound(m) | Error::InvalidObjectState(m)
            | Error::Unhandled(m) => f.write_str(&m.text),
        }
    }
}
impl std::error::Error for Error {}
impl From<error::SdkError<GetObjectError>> for Error {
    fn from(e: error::SdkError<GetObjectError>) -> Self {
        match e {
            error::SdkError::ServiceError(s) => {
                let m = Meta { code: s.err.code.clone(), message: s.err.message.clone(), text: s.err.to_string() };
                match s.err.typed {
                    Some("NoSuchKey") => Error::NoSuchKey(m),
                    Some("NoSuchBucket") => Error::NoSuchBucket(m),
                    Some("NotFound") => Error::NotFound(m),
                    Some("InvalidObjectState") => Error::InvalidObjectState(m),
                    _ => Error::Unhandled(m),
                }
            }
            o => Error::Unhandled(Meta { code: None, message: None, text: o.to_string() }),
        }
    }
}
