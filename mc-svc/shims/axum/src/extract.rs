use crate::body::Body;
use crate::response::{IntoResponse, Response};
use bytes::Bytes;
use futures::StreamExt;
use http::StatusCode;
use serde::de::DeserializeOwned;
use std::cell::Cell;
use std::future::{ready, Future};
use std::pin::Pin;
use tower_layer::Layer;
use tower_service::Service;

/// What extractors see of a request.
pub struct Ctx {
    parts: http::request::Parts,
    body: Option<Body>,
}
impl Ctx {
    pub(crate) fn new(req: crate::Request) -> Ctx {
        let (parts, body) = req.into_parts();
        Ctx { parts, body: Some(body) }
    }
    /// The bytes of the body, as far as the limit for bodies lets them pass.
    fn body(&mut self) -> Limited {
        let limit = self.parts.extensions.get::<Limit>().map_or(Some(2 * 1024 * 1024), |l| l.0);
        Limited { body: self.body.take().unwrap_or_else(Body::empty), left: limit }
    }
}
#[derive(Clone)]
pub(crate) struct Params(pub Vec<String>);
#[derive(Clone)]
struct Limit(Option<usize>);
struct Limited {
    body: Body,
    left: Option<usize>,
}
enum BodyError {
    TooLarge,
    Broken,
}
impl Limited {
    async fn next(&mut self) -> Option<Result<Bytes, BodyError>> {
        let chunk = match self.body.0.next().await? {
            Ok(c) => c,
            Err(_) => return Some(Err(BodyError::Broken)),
        };
        if let Some(left) = &mut self.left {
            match left.checked_sub(chunk.len()) {
                Some(l) => *left = l,
                None => return Some(Err(BodyError::TooLarge)),
            }
        }
        Some(Ok(chunk))
    }
}

pub type Extracted<'a, T> = Pin<Box<dyn Future<Output = Result<T, Response>> + Send + 'a>>;
pub trait FromRequest<S>: Sized {
    fn from_ctx<'a>(ctx: &'a mut Ctx, state: &'a S) -> Extracted<'a, Self>;
}

#[derive(Clone, Copy, Debug)]
pub struct DefaultBodyLimit(Option<usize>);
impl DefaultBodyLimit {
    pub fn max(limit: usize) -> Self {
        DefaultBodyLimit(Some(limit))
    }
    pub fn disable() -> Self {
        DefaultBodyLimit(None)
    }
}
#[derive(Clone)]
pub struct LimitService<S>(S, Option<usize>);
impl<S> Layer<S> for DefaultBodyLimit {
    type Service = LimitService<S>;
    fn layer(&self, inner: S) -> LimitService<S> {
        LimitService(inner, self.0)
    }
}
impl<S: Service<crate::Request>> Service<crate::Request> for LimitService<S> {
    type Response = S::Response;
    type Error = S::Error;
    type Future = S::Future;
    fn poll_ready(&mut self, cx: &mut std::task::Context<'_>) -> std::task::Poll<Result<(), S::Error>> {
        self.0.poll_ready(cx)
    }
    fn call(&mut self, mut req: crate::Request) -> S::Future {
        req.extensions_mut().insert(Limit(self.1));
        self.0.call(req)
    }
}

#[derive(Clone, Debug)]
pub struct State<T>(pub T);
impl<T: Clone + Send + Sync + 'static> FromRequest<T> for State<T> {
    fn from_ctx<'a>(_: &'a mut Ctx, state: &'a T) -> Extracted<'a, Self> {
        Box::pin(ready(Ok(State(state.clone()))))
    }
}

impl<S> FromRequest<S> for crate::Request {
    fn from_ctx<'a>(ctx: &'a mut Ctx, _: &'a S) -> Extracted<'a, Self> {
        let body = ctx.body.take().unwrap_or_else(Body::empty);
        Box::pin(ready(Ok(http::Request::from_parts(ctx.parts.clone(), body))))
    }
}

/// A value of a query or path.
struct Part(String);
macro_rules! parsed {
    ($($method:ident $visit:ident)*) => {
        $(fn $method<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, Self::Error> {
            match self.0.parse() {
                Ok(x) => v.$visit(x),
                Err(e) => Err(serde::de::Error::custom(e)),
            }
        })*
    };
}
impl<'de> serde::Deserializer<'de> for Part {
    type Error = serde::de::value::Error;
    fn deserialize_any<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, Self::Error> {
        v.visit_string(self.0)
    }
    fn deserialize_option<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, Self::Error> {
        v.visit_some(self)
    }
    fn deserialize_newtype_struct<V: serde::de::Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Self::Error> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_enum<V: serde::de::Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Self::Error> {
        use serde::de::IntoDeserializer;
        v.visit_enum(IntoDeserializer::<Self::Error>::into_deserializer(self.0))
    }
    parsed!(deserialize_bool visit_bool deserialize_u8 visit_u8 deserialize_u16 visit_u16 deserialize_u32 visit_u32 deserialize_u64 visit_u64
        deserialize_i8 visit_i8 deserialize_i16 visit_i16 deserialize_i32 visit_i32 deserialize_i64 visit_i64 deserialize_f32 visit_f32 deserialize_f64 visit_f64);
    serde::forward_to_deserialize_any! {
        char str string bytes byte_buf unit unit_struct seq tuple tuple_struct map struct identifier ignored_any
    }
}
impl<'de> serde::de::IntoDeserializer<'de> for Part {
    type Deserializer = Part;
    fn into_deserializer(self) -> Part {
        self
    }
}

#[derive(Clone, Debug)]
pub struct Query<T>(pub T);
impl<S, T: DeserializeOwned + Send + 'static> FromRequest<S> for Query<T> {
    fn from_ctx<'a>(ctx: &'a mut Ctx, _: &'a S) -> Extracted<'a, Self> {
        let pairs = form_urlencoded::parse(ctx.parts.uri.query().unwrap_or_default().as_bytes()).into_owned();
        let map = serde::de::value::MapDeserializer::new(pairs.map(|(k, v)| (k, Part(v))));
        let r: Result<T, serde::de::value::Error> = T::deserialize(map);
        Box::pin(ready(r.map(Query).map_err(|e| (StatusCode::BAD_REQUEST, format!("Failed to deserialize query string: {e}")).into_response())))
    }
}

#[derive(Clone, Debug)]
pub struct Path<T>(pub T);
impl<S, T: DeserializeOwned + Send + 'static> FromRequest<S> for Path<T> {
    fn from_ctx<'a>(ctx: &'a mut Ctx, _: &'a S) -> Extracted<'a, Self> {
        let raw = ctx.parts.extensions.get::<Params>().and_then(|p| p.0.first().cloned()).unwrap_or_default();
        let r = percent_encoding::percent_decode_str(&raw).decode_utf8().map_err(|e| e.to_string());
        let r = r.and_then(|s| T::deserialize(Part(s.into())).map_err(|e| e.to_string()));
        Box::pin(ready(r.map(Path).map_err(|e| (StatusCode::BAD_REQUEST, format!("Invalid URL: {e}")).into_response())))
    }
}

#[derive(Clone, Debug)]
pub struct Json<T>(pub T);
impl<S, T: DeserializeOwned + Send + 'static> FromRequest<S> for Json<T> {
    fn from_ctx<'a>(ctx: &'a mut Ctx, _: &'a S) -> Extracted<'a, Self> {
        Box::pin(async move {
            let ty = ctx.parts.headers.get("content-type").and_then(|v| v.to_str().ok()).unwrap_or_default();
            if ty.split(';').next().unwrap().trim() != "application/json" {
                return Err((StatusCode::UNSUPPORTED_MEDIA_TYPE, "Expected request with `Content-Type: application/json`").into_response());
            }
            let mut body = ctx.body();
            let mut all = vec![];
            while let Some(c) = body.next().await {
                match c {
                    Ok(c) => all.extend_from_slice(&c),
                    Err(BodyError::TooLarge) => return Err((StatusCode::PAYLOAD_TOO_LARGE, "length limit exceeded").into_response()),
                    Err(BodyError::Broken) => return Err((StatusCode::BAD_REQUEST, "Failed to buffer the request body").into_response()),
                }
            }
            serde_json::from_slice(&all).map(Json).map_err(|e| {
                let status = if e.is_data() { StatusCode::UNPROCESSABLE_ENTITY } else { StatusCode::BAD_REQUEST };
                (status, e.to_string()).into_response()
            })
        })
    }
}

thread_local! {
    /// The largest chunk a field of a form is handed out in.
    pub static CHUNK: Cell<usize> = const { Cell::new(8192) };
}
pub struct Multipart {
    body: Limited,
    boundary: String,
    buf: Vec<u8>,
    state: Form,
    end: bool,
}
#[derive(PartialEq)]
enum Form {
    Start,
    InField,
    Between,
    Done,
}
impl<S> FromRequest<S> for Multipart {
    fn from_ctx<'a>(ctx: &'a mut Ctx, _: &'a S) -> Extracted<'a, Self> {
        let ty = ctx.parts.headers.get("content-type").and_then(|v| v.to_str().ok()).unwrap_or_default();
        let boundary = ty.strip_prefix("multipart/form-data").and_then(|t| t.split_once("boundary=")).map(|b| b.1.trim_matches('"').to_string());
        Box::pin(ready(match boundary {
            Some(boundary) => Ok(Multipart { body: ctx.body(), boundary, buf: vec![], state: Form::Start, end: false }),
            None => Err((StatusCode::BAD_REQUEST, "Invalid `boundary` for `multipart/form-data` request").into_response()),
        }))
    }
}
fn find(hay: &[u8], needle: &[u8]) -> Option<usize> {
    // the first byte of all needles here is a line break
    let mut at = 0;
    while let Some(n) = hay[at..].iter().position(|b| *b == needle[0]) {
        if hay[at + n..].starts_with(needle) {
            return Some(at + n);
        }
        at += n + 1;
    }
    None
}
impl Multipart {
    async fn fill(&mut self) -> Result<bool, multipart::MultipartError> {
        match self.body.next().await {
            Some(Ok(c)) => {
                self.buf.extend_from_slice(&c);
                Ok(true)
            }
            Some(Err(BodyError::TooLarge)) => Err(multipart::MultipartError("length limit exceeded")),
            Some(Err(BodyError::Broken)) => Err(multipart::MultipartError("error reading a body")),
            None => {
                self.end = true;
                Ok(false)
            }
        }
    }
    async fn chunk(&mut self) -> Result<Option<Bytes>, multipart::MultipartError> {
        if self.state != Form::InField {
            return Ok(None);
        }
        let delimiter = format!("\r\n--{}", self.boundary).into_bytes();
        let max = CHUNK.with(|c| c.get());
        loop {
            let (available, closed) = match find(&self.buf, &delimiter) {
                Some(n) => (n, true),
                None => (self.buf.len().saturating_sub(delimiter.len()), false),
            };
            if available > 0 && (closed || available >= max || self.end) {
                let rest = self.buf.split_off(available.min(max));
                return Ok(Some(std::mem::replace(&mut self.buf, rest).into()));
            }
            if closed {
                self.buf.drain(..delimiter.len());
                self.state = Form::Between;
                return Ok(None);
            }
            if !self.fill().await? {
                return Err(multipart::MultipartError("incomplete multipart stream"));
            }
        }
    }
    pub async fn next_field(&mut self) -> Result<Option<multipart::Field<'_>>, multipart::MultipartError> {
        while self.chunk().await?.is_some() {}
        if self.state == Form::Start {
            let first = format!("--{}", self.boundary).into_bytes();
            while self.buf.len() < first.len() && self.fill().await? {}
            if !self.buf.starts_with(&first) {
                return Err(multipart::MultipartError("incomplete multipart stream"));
            }
            self.buf.drain(..first.len());
            self.state = Form::Between;
        }
        if self.state == Form::Done {
            return Ok(None);
        }
        while self.buf.len() < 2 && self.fill().await? {}
        if self.buf.starts_with(b"--") {
            self.state = Form::Done;
            return Ok(None);
        }
        let headers = loop {
            if let Some(n) = find(&self.buf, b"\r\n\r\n") {
                let rest = self.buf.split_off(n + 4);
                break String::from_utf8_lossy(&std::mem::replace(&mut self.buf, rest)).into_owned();
            }
            if !self.fill().await? {
                return Err(multipart::MultipartError("incomplete multipart stream"));
            }
        };
        self.state = Form::InField;
        let name = headers.split("name=\"").nth(1).and_then(|n| n.split('"').next()).map(String::from);
        Ok(Some(multipart::Field { name, form: self }))
    }
}
pub mod multipart {
    use super::*;
    use std::fmt;

    pub use super::Multipart;
    #[derive(Clone, Debug)]
    pub struct MultipartError(pub(crate) &'static str);
    impl fmt::Display for MultipartError {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "Error parsing `multipart/form-data` request: {}", self.0)
        }
    }
    impl std::error::Error for MultipartError {}

    pub struct Field<'a> {
        pub(crate) name: Option<String>,
        pub(crate) form: &'a mut Multipart,
    }
    impl Field<'_> {
        pub fn name(&self) -> Option<&str> {
            self.name.as_deref()
        }
        pub async fn chunk(&mut self) -> Result<Option<Bytes>, MultipartError> {
            self.form.chunk().await
        }
        pub async fn bytes(mut self) -> Result<Bytes, MultipartError> {
            let mut all = vec![];
            while let Some(c) = self.chunk().await? {
                all.extend_from_slice(&c);
            }
            Ok(all.into())
        }
        pub async fn text(self) -> Result<String, MultipartError> {
            self.bytes().await.map(|b| String::from_utf8_lossy(&b).into_owned())
        }
    }
    impl futures::Stream for Field<'_> {
        type Item = Result<Bytes, MultipartError>;
        fn poll_next(mut self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<Option<Self::Item>> {
            let chunk = std::pin::pin!(self.form.chunk());
            chunk.poll(cx).map(Result::transpose)
        }
    }
}
