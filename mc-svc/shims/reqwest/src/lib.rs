//! Stand-in for `reqwest` 0.12 (getsentry fork with `ip_filter`).  Requests are answered by a
//! scripted [`Transport`] of the current thread instead of the network; redirects, the redirect
//! policy, the IP filter, timeouts and Content-Length enforcement behave as in reqwest.

use std::cell::RefCell;
use std::fmt;
use std::future::Future;
use std::net::IpAddr;
use std::pin::Pin;
use std::sync::Arc;
use std::time::Duration;

use bytes::Bytes;
use futures::stream::{BoxStream, Stream, StreamExt};
use serde::de::DeserializeOwned;
use serde::Serialize;

pub use http::header;
pub use http::{HeaderMap, Method, StatusCode, Version};
pub use url::{ParseError, Url};

pub type Result<T> = std::result::Result<T, Error>;
type BoxError = Box<dyn std::error::Error + Send + Sync>;

// ---------------------------------------------------------------- transport (harness side)

/// One request as it would go over the wire.
#[derive(Clone, Debug)]
pub struct Hop {
    pub method: Method,
    pub url: Url,
    pub headers: HeaderMap,
    pub body: Option<Bytes>,
    pub accept_invalid_certs: bool,
    pub ip_filtered: bool,
    pub connect_timeout: Option<Duration>,
    pub timeout: Option<Duration>,
    /// The address that was connected to.
    pub ip: Option<IpAddr>,
}

pub struct Reply {
    pub status: u16,
    pub headers: Vec<(String, String)>,
    pub body: BoxStream<'static, std::result::Result<Bytes, String>>,
}
impl Reply {
    pub fn new(status: u16, body: impl Into<Bytes>) -> Reply {
        let b: Bytes = body.into();
        Reply {
            status,
            headers: vec![("content-length".into(), b.len().to_string())],
            body: futures::stream::once(async move { Ok(b) }).boxed(),
        }
    }
    pub fn header(mut self, k: &str, v: impl ToString) -> Reply {
        self.headers.retain(|h| !h.0.eq_ignore_ascii_case(k));
        self.headers.push((k.into(), v.to_string()));
        self
    }
}

/// A failure below HTTP; the text is the innermost error.
#[derive(Clone, Debug)]
pub enum Fail {
    Connect(String),
    Request(String),
}

pub trait Transport: Send + Sync {
    fn resolve(&self, _host: &str) -> Vec<IpAddr> {
        vec![[93, 184, 216, 34].into()]
    }
    fn send(&self, hop: Hop) -> Pin<Box<dyn Future<Output = std::result::Result<Reply, Fail>> + Send>>;
}

thread_local! {
    static TRANSPORT: RefCell<Option<Arc<dyn Transport>>> = const { RefCell::new(None) };
}
/// Installs the transport of this thread.
pub fn set_transport(t: Option<Arc<dyn Transport>>) {
    TRANSPORT.with(|x| *x.borrow_mut() = t)
}
fn transport() -> Option<Arc<dyn Transport>> {
    TRANSPORT.with(|x| x.borrow().clone())
}

// ---------------------------------------------------------------- errors

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Kind {
    Builder,
    Connect,
    Request,
    Redirect,
    Timeout,
    Body,
    Decode,
    Status(StatusCode),
}
pub struct Error {
    kind: Kind,
    url: Option<Url>,
    source: Option<BoxError>,
}
impl Error {
    fn new(kind: Kind, source: impl Into<BoxError>) -> Self {
        Error { kind, url: None, source: Some(source.into()) }
    }
    fn with(mut self, u: &Url) -> Self {
        self.url = Some(u.clone());
        self
    }
    pub fn is_timeout(&self) -> bool {
        self.kind == Kind::Timeout
    }
    pub fn is_connect(&self) -> bool {
        self.kind == Kind::Connect
    }
    pub fn is_request(&self) -> bool {
        matches!(self.kind, Kind::Request | Kind::Connect | Kind::Timeout)
    }
    pub fn is_redirect(&self) -> bool {
        self.kind == Kind::Redirect
    }
    pub fn is_body(&self) -> bool {
        self.kind == Kind::Body
    }
    pub fn is_decode(&self) -> bool {
        self.kind == Kind::Decode
    }
    pub fn is_builder(&self) -> bool {
        self.kind == Kind::Builder
    }
    pub fn is_status(&self) -> bool {
        matches!(self.kind, Kind::Status(_))
    }
    pub fn status(&self) -> Option<StatusCode> {
        match self.kind {
            Kind::Status(s) => Some(s),
            _ => None,
        }
    }
    pub fn url(&self) -> Option<&Url> {
        self.url.as_ref()
    }
    pub fn without_url(mut self) -> Self {
        self.url = None;
        self
    }
}
impl fmt::Debug for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("reqwest::Error")
            .field("kind", &self.kind)
            .field("url", &self.url.as_ref().map(|u| u.as_str()))
            .field("source", &self.source)
            .finish()
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.kind {
            Kind::Builder => f.write_str("builder error")?,
            Kind::Connect | Kind::Request | Kind::Timeout => f.write_str("error sending request")?,
            Kind::Redirect => f.write_str("error following redirect")?,
            Kind::Body => f.write_str("request or response body error")?,
            Kind::Decode => f.write_str("error decoding response body")?,
            Kind::Status(s) => write!(f, "HTTP status error ({s})")?,
        }
        if let Some(u) = &self.url {
            write!(f, " for url ({u})")?;
        }
        Ok(())
    }
}
impl std::error::Error for Error {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        self.source.as_ref().map(|e| &**e as _)
    }
}
#[derive(Debug)]
struct Msg(String);
impl fmt::Display for Msg {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Msg {}
fn msg(s: impl Into<String>) -> BoxError {
    Box::new(Msg(s.into()))
}
fn timed_out(u: &Url) -> Error {
    Error::new(Kind::Timeout, msg("operation timed out")).with(u)
}

// ---------------------------------------------------------------- urls

pub trait IntoUrl {
    fn into_url(self) -> Result<Url>;
}
impl IntoUrl for Url {
    fn into_url(self) -> Result<Url> {
        if self.has_host() {
            Ok(self)
        } else {
            Err(Error::new(Kind::Builder, msg("URL scheme is not allowed")).with(&self))
        }
    }
}
impl IntoUrl for &Url {
    fn into_url(self) -> Result<Url> {
        self.clone().into_url()
    }
}
impl IntoUrl for &str {
    fn into_url(self) -> Result<Url> {
        Url::parse(self).map_err(|e| Error::new(Kind::Builder, e))?.into_url()
    }
}
impl IntoUrl for String {
    fn into_url(self) -> Result<Url> {
        (&*self).into_url()
    }
}
impl IntoUrl for &String {
    fn into_url(self) -> Result<Url> {
        (&**self).into_url()
    }
}

// ---------------------------------------------------------------- redirects

pub mod redirect {
    use super::*;
    #[derive(Clone)]
    pub struct Policy(pub(crate) Inner);
    #[derive(Clone)]
    pub(crate) enum Inner {
        Limit(usize),
        None,
        Custom(Arc<dyn Fn(Attempt) -> Action + Send + Sync>),
    }
    pub struct Attempt<'a> {
        pub(crate) status: StatusCode,
        pub(crate) next: &'a Url,
        pub(crate) previous: &'a [Url],
    }
    pub struct Action(pub(crate) Act);
    pub(crate) enum Act {
        Follow,
        Stop,
        Error(BoxError),
    }
    impl Policy {
        pub fn limited(max: usize) -> Self {
            Policy(Inner::Limit(max))
        }
        pub fn none() -> Self {
            Policy(Inner::None)
        }
        pub fn custom<T>(f: T) -> Self
        where
            T: Fn(Attempt) -> Action + Send + Sync + 'static,
        {
            Policy(Inner::Custom(Arc::new(f)))
        }
        pub fn redirect(&self, attempt: Attempt) -> Action {
            match &self.0 {
                Inner::Custom(f) => f(attempt),
                Inner::None => attempt.stop(),
                Inner::Limit(max) => {
                    if attempt.previous.len() > *max {
                        attempt.error(Msg("too many redirects".into()))
                    } else {
                        attempt.follow()
                    }
                }
            }
        }
    }
    impl Default for Policy {
        fn default() -> Self {
            Policy::limited(10)
        }
    }
    impl<'a> Attempt<'a> {
        pub fn status(&self) -> StatusCode {
            self.status
        }
        pub fn url(&self) -> &Url {
            self.next
        }
        pub fn previous(&self) -> &[Url] {
            self.previous
        }
        pub fn follow(self) -> Action {
            Action(Act::Follow)
        }
        pub fn stop(self) -> Action {
            Action(Act::Stop)
        }
        pub fn error<E: Into<BoxError>>(self, e: E) -> Action {
            Action(Act::Error(e.into()))
        }
    }
}

// ---------------------------------------------------------------- client

type IpFilter = Arc<dyn Fn(IpAddr) -> bool + Send + Sync>;

#[derive(Clone)]
struct Config {
    timeout: Option<Duration>,
    connect_timeout: Option<Duration>,
    accept_invalid_certs: bool,
    redirect: redirect::Policy,
    ip_filter: Option<IpFilter>,
    headers: HeaderMap,
}

#[derive(Clone)]
pub struct Client(Arc<Config>);
impl fmt::Debug for Client {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Client")
    }
}
impl Default for Client {
    fn default() -> Self {
        Client::new()
    }
}

pub struct ClientBuilder(Config);
impl Default for ClientBuilder {
    fn default() -> Self {
        Self::new()
    }
}
macro_rules! ignored {
    ($($n:ident($t:ty)),* $(,)?) => { $(pub fn $n(self, _: $t) -> Self { self })* };
}
impl ClientBuilder {
    pub fn new() -> Self {
        ClientBuilder(Config {
            timeout: None,
            connect_timeout: None,
            accept_invalid_certs: false,
            redirect: Default::default(),
            ip_filter: None,
            headers: HeaderMap::new(),
        })
    }
    ignored!(
        gzip(bool), brotli(bool), deflate(bool), zstd(bool), hickory_dns(bool), trust_dns(bool),
        pool_max_idle_per_host(usize), tcp_nodelay(bool), https_only(bool), referer(bool),
        cookie_store(bool), connection_verbose(bool),
    );
    pub fn pool_idle_timeout(self, _d: impl Into<Option<Duration>>) -> Self {
        self
    }
    pub fn timeout(mut self, d: Duration) -> Self {
        self.0.timeout = Some(d);
        self
    }
    pub fn read_timeout(self, _d: Duration) -> Self {
        self
    }
    pub fn connect_timeout(mut self, d: Duration) -> Self {
        self.0.connect_timeout = Some(d);
        self
    }
    pub fn danger_accept_invalid_certs(mut self, b: bool) -> Self {
        self.0.accept_invalid_certs = b;
        self
    }
    pub fn redirect(mut self, p: redirect::Policy) -> Self {
        self.0.redirect = p;
        self
    }
    pub fn ip_filter(mut self, f: impl Fn(IpAddr) -> bool + Send + Sync + 'static) -> Self {
        self.0.ip_filter = Some(Arc::new(f));
        self
    }
    pub fn user_agent(mut self, v: impl AsRef<str>) -> Self {
        self.0.headers.insert(header::USER_AGENT, header::HeaderValue::from_str(v.as_ref()).unwrap());
        self
    }
    pub fn default_headers(mut self, h: HeaderMap) -> Self {
        self.0.headers.extend(h);
        self
    }
    pub fn build(self) -> Result<Client> {
        Ok(Client(Arc::new(self.0)))
    }
}

impl Client {
    pub fn new() -> Self {
        ClientBuilder::new().build().unwrap()
    }
    pub fn builder() -> ClientBuilder {
        ClientBuilder::new()
    }
    pub fn request(&self, method: Method, url: impl IntoUrl) -> RequestBuilder {
        RequestBuilder { client: self.clone(), request: url.into_url().map(|u| Request::new(method, u)) }
    }
    pub fn get(&self, url: impl IntoUrl) -> RequestBuilder {
        self.request(Method::GET, url)
    }
    pub fn head(&self, url: impl IntoUrl) -> RequestBuilder {
        self.request(Method::HEAD, url)
    }
    pub fn post(&self, url: impl IntoUrl) -> RequestBuilder {
        self.request(Method::POST, url)
    }
    pub fn put(&self, url: impl IntoUrl) -> RequestBuilder {
        self.request(Method::PUT, url)
    }
    pub fn delete(&self, url: impl IntoUrl) -> RequestBuilder {
        self.request(Method::DELETE, url)
    }
    pub fn execute(&self, request: Request) -> impl Future<Output = Result<Response>> + Send + 'static {
        let cfg = self.0.clone();
        async move {
            let timeout = request.timeout.or(cfg.timeout);
            let deadline = timeout.and_then(|t| tokio::time::Instant::now().checked_add(t));
            let url = request.url.clone();
            let fut = run(cfg, request, timeout, deadline);
            match deadline {
                Some(d) => tokio::time::timeout_at(d, fut).await.map_err(|_| timed_out(&url))?,
                None => fut.await,
            }
        }
    }
}

async fn run(
    cfg: Arc<Config>,
    request: Request,
    timeout: Option<Duration>,
    deadline: Option<tokio::time::Instant>,
) -> Result<Response> {
    let Request { mut method, mut url, mut headers, body, .. } = request;
    for (k, v) in cfg.headers.iter() {
        if !headers.contains_key(k) {
            headers.insert(k, v.clone());
        }
    }
    let mut bytes = match body {
        None => None,
        Some(Body(BodyInner::Bytes(b))) => Some(b),
        Some(Body(BodyInner::Stream(mut s))) => {
            let mut all = vec![];
            while let Some(c) = s.next().await {
                let c = c.map_err(|e| Error::new(Kind::Body, e).with(&url))?;
                all.extend_from_slice(&c);
            }
            Some(all.into())
        }
    };
    let mut previous = vec![];
    loop {
        if !matches!(url.scheme(), "http" | "https") {
            return Err(Error::new(Kind::Builder, msg("URL scheme is not allowed")).with(&url));
        }
        let Some(t) = transport() else {
            return Err(Error::new(Kind::Connect, msg("no network")).with(&url));
        };
        let host = url.host_str().unwrap_or_default().to_string();
        let ips = match url.host() {
            Some(url::Host::Ipv4(i)) => vec![i.into()],
            Some(url::Host::Ipv6(i)) => vec![i.into()],
            _ => t.resolve(&host),
        };
        let ip = ips.into_iter().find(|ip| cfg.ip_filter.as_ref().is_none_or(|f| f(*ip)));
        if ip.is_none() {
            return Err(Error::new(Kind::Connect, msg("destination is restricted")).with(&url));
        }
        let hop = Hop {
            method: method.clone(),
            url: url.clone(),
            headers: headers.clone(),
            body: bytes.clone(),
            accept_invalid_certs: cfg.accept_invalid_certs,
            ip_filtered: cfg.ip_filter.is_some(),
            connect_timeout: cfg.connect_timeout,
            timeout,
            ip,
        };
        let reply = t.send(hop).await.map_err(|f| match f {
            Fail::Connect(s) => Error::new(Kind::Connect, msg(s)).with(&url),
            Fail::Request(s) => Error::new(Kind::Request, msg(s)).with(&url),
        })?;
        let status = StatusCode::from_u16(reply.status).expect("status");
        let mut rh = HeaderMap::new();
        for (k, v) in &reply.headers {
            rh.append(
                header::HeaderName::from_bytes(k.as_bytes()).expect("header"),
                header::HeaderValue::from_bytes(v.as_bytes()).expect("header"),
            );
        }
        if matches!(status.as_u16(), 301 | 302 | 303 | 307 | 308) {
            let next = rh
                .get(header::LOCATION)
                .and_then(|l| l.to_str().ok())
                .and_then(|l| url.join(l).ok());
            if let Some(next) = next {
                previous.push(url.clone());
                let act = cfg.redirect.redirect(redirect::Attempt {
                    status,
                    next: &next,
                    previous: &previous,
                });
                match act.0 {
                    redirect::Act::Stop => {}
                    redirect::Act::Error(e) => return Err(Error::new(Kind::Redirect, e).with(&next)),
                    redirect::Act::Follow => {
                        if matches!(status.as_u16(), 301..=303) {
                            bytes = None;
                            headers.remove(header::CONTENT_TYPE);
                            headers.remove(header::CONTENT_LENGTH);
                            if method != Method::GET && method != Method::HEAD {
                                method = Method::GET;
                            }
                        }
                        let cross = next.host_str() != url.host_str()
                            || next.port_or_known_default() != url.port_or_known_default();
                        if cross {
                            for h in ["authorization", "cookie", "cookie2", "proxy-authorization", "www-authenticate"] {
                                headers.remove(h);
                            }
                        }
                        url = next;
                        continue;
                    }
                }
            }
        }
        let len = rh
            .get(header::CONTENT_LENGTH)
            .and_then(|v| v.to_str().ok())
            .and_then(|v| v.trim().parse::<u64>().ok());
        return Ok(Response { status, headers: rh, body: reply.body, len, url, deadline });
    }
}

// ---------------------------------------------------------------- request

pub struct Body(BodyInner);
enum BodyInner {
    Bytes(Bytes),
    Stream(BoxStream<'static, std::result::Result<Bytes, BoxError>>),
}
impl Body {
    pub fn wrap_stream<S>(stream: S) -> Body
    where
        S: futures::TryStream + Send + 'static,
        S::Error: Into<BoxError>,
        Bytes: From<S::Ok>,
    {
        use futures::TryStreamExt;
        Body(BodyInner::Stream(stream.map_ok(Bytes::from).map_err(Into::into).boxed()))
    }
    pub fn as_bytes(&self) -> Option<&[u8]> {
        match &self.0 {
            BodyInner::Bytes(b) => Some(b),
            _ => None,
        }
    }
}
impl fmt::Debug for Body {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Body")
    }
}
impl From<Bytes> for Body {
    fn from(b: Bytes) -> Self {
        Body(BodyInner::Bytes(b))
    }
}
impl From<Vec<u8>> for Body {
    fn from(b: Vec<u8>) -> Self {
        Body(BodyInner::Bytes(b.into()))
    }
}
impl From<String> for Body {
    fn from(b: String) -> Self {
        Body(BodyInner::Bytes(b.into()))
    }
}
impl From<&'static str> for Body {
    fn from(b: &'static str) -> Self {
        Body(BodyInner::Bytes(Bytes::from_static(b.as_bytes())))
    }
}

#[derive(Debug)]
pub struct Request {
    method: Method,
    url: Url,
    headers: HeaderMap,
    body: Option<Body>,
    timeout: Option<Duration>,
}
impl Request {
    pub fn new(method: Method, url: Url) -> Self {
        Request { method, url, headers: HeaderMap::new(), body: None, timeout: None }
    }
    pub fn method(&self) -> &Method {
        &self.method
    }
    pub fn url(&self) -> &Url {
        &self.url
    }
    pub fn url_mut(&mut self) -> &mut Url {
        &mut self.url
    }
    pub fn headers(&self) -> &HeaderMap {
        &self.headers
    }
    pub fn headers_mut(&mut self) -> &mut HeaderMap {
        &mut self.headers
    }
    pub fn body(&self) -> Option<&Body> {
        self.body.as_ref()
    }
    pub fn body_mut(&mut self) -> &mut Option<Body> {
        &mut self.body
    }
    pub fn timeout(&self) -> Option<&Duration> {
        self.timeout.as_ref()
    }
    pub fn timeout_mut(&mut self) -> &mut Option<Duration> {
        &mut self.timeout
    }
    pub fn try_clone(&self) -> Option<Request> {
        let body = match &self.body {
            None => None,
            Some(Body(BodyInner::Bytes(b))) => Some(Body(BodyInner::Bytes(b.clone()))),
            _ => return None,
        };
        Some(Request {
            method: self.method.clone(),
            url: self.url.clone(),
            headers: self.headers.clone(),
            body,
            timeout: self.timeout,
        })
    }
}

#[derive(Debug)]
pub struct RequestBuilder {
    client: Client,
    request: Result<Request>,
}
impl RequestBuilder {
    fn map(mut self, f: impl FnOnce(&mut Request) -> Result<()>) -> Self {
        if let Ok(r) = &mut self.request {
            if let Err(e) = f(r) {
                self.request = Err(e);
            }
        }
        self
    }
    pub fn header<K, V>(self, key: K, value: V) -> Self
    where
        header::HeaderName: TryFrom<K>,
        <header::HeaderName as TryFrom<K>>::Error: Into<http::Error>,
        header::HeaderValue: TryFrom<V>,
        <header::HeaderValue as TryFrom<V>>::Error: Into<http::Error>,
    {
        self.map(|r| {
            let k = header::HeaderName::try_from(key)
                .map_err(|e| Error::new(Kind::Builder, Into::<http::Error>::into(e)))?;
            let v = header::HeaderValue::try_from(value)
                .map_err(|e| Error::new(Kind::Builder, Into::<http::Error>::into(e)))?;
            r.headers.append(k, v);
            Ok(())
        })
    }
    pub fn headers(self, h: HeaderMap) -> Self {
        self.map(|r| {
            for (k, v) in h.iter() {
                r.headers.insert(k.clone(), v.clone());
            }
            Ok(())
        })
    }
    pub fn bearer_auth(self, token: impl fmt::Display) -> Self {
        self.header(header::AUTHORIZATION, format!("Bearer {token}"))
    }
    pub fn timeout(self, d: Duration) -> Self {
        self.map(|r| {
            r.timeout = Some(d);
            Ok(())
        })
    }
    pub fn body(self, b: impl Into<Body>) -> Self {
        self.map(|r| {
            r.body = Some(b.into());
            Ok(())
        })
    }
    pub fn json<T: Serialize + ?Sized>(self, t: &T) -> Self {
        self.map(|r| {
            let b = serde_json::to_vec(t).map_err(|e| Error::new(Kind::Builder, e))?;
            r.headers.insert(header::CONTENT_TYPE, header::HeaderValue::from_static("application/json"));
            r.body = Some(b.into());
            Ok(())
        })
    }
    pub fn form<T: Serialize + ?Sized>(self, t: &T) -> Self {
        self.map(|r| {
            // good enough for flat structs
            let v = serde_json::to_value(t).map_err(|e| Error::new(Kind::Builder, e))?;
            let mut s = url::form_urlencoded::Serializer::new(String::new());
            for (k, v) in v.as_object().into_iter().flatten() {
                s.append_pair(k, v.as_str().map(|s| s.to_string()).unwrap_or_else(|| v.to_string()).as_str());
            }
            r.headers.insert(
                header::CONTENT_TYPE,
                header::HeaderValue::from_static("application/x-www-form-urlencoded"),
            );
            r.body = Some(s.finish().into());
            Ok(())
        })
    }
    pub fn query<T: Serialize + ?Sized>(self, t: &T) -> Self {
        self.map(|r| {
            let v = serde_json::to_value(t).map_err(|e| Error::new(Kind::Builder, e))?;
            let text = |v: &serde_json::Value| v.as_str().map(|s| s.to_string()).unwrap_or_else(|| v.to_string());
            {
                let mut q = r.url.query_pairs_mut();
                match &v {
                    serde_json::Value::Object(o) => {
                        for (k, v) in o {
                            if !v.is_null() {
                                q.append_pair(k, &text(v));
                            }
                        }
                    }
                    serde_json::Value::Array(a) => {
                        for p in a {
                            if !p[1].is_null() {
                                q.append_pair(&text(&p[0]), &text(&p[1]));
                            }
                        }
                    }
                    _ => {}
                }
            }
            if r.url.query() == Some("") {
                r.url.set_query(None);
            }
            Ok(())
        })
    }
    pub fn build(self) -> Result<Request> {
        self.request
    }
    pub fn build_split(self) -> (Client, Result<Request>) {
        (self.client, self.request)
    }
    pub fn try_clone(&self) -> Option<Self> {
        let r = self.request.as_ref().ok()?.try_clone()?;
        Some(RequestBuilder { client: self.client.clone(), request: Ok(r) })
    }
    pub fn send(self) -> impl Future<Output = Result<Response>> + Send + 'static {
        async move {
            let r = self.request?;
            self.client.execute(r).await
        }
    }
}

// ---------------------------------------------------------------- response

pub struct Response {
    status: StatusCode,
    headers: HeaderMap,
    body: BoxStream<'static, std::result::Result<Bytes, String>>,
    len: Option<u64>,
    url: Url,
    deadline: Option<tokio::time::Instant>,
}
impl fmt::Debug for Response {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("Response").field("status", &self.status).field("headers", &self.headers).finish()
    }
}
impl Response {
    pub fn status(&self) -> StatusCode {
        self.status
    }
    pub fn headers(&self) -> &HeaderMap {
        &self.headers
    }
    pub fn headers_mut(&mut self) -> &mut HeaderMap {
        &mut self.headers
    }
    pub fn url(&self) -> &Url {
        &self.url
    }
    pub fn content_length(&self) -> Option<u64> {
        self.len
    }
    pub fn error_for_status(self) -> Result<Self> {
        if self.status.is_client_error() || self.status.is_server_error() {
            return Err(Error { kind: Kind::Status(self.status), url: Some(self.url), source: None });
        }
        Ok(self)
    }
    pub fn error_for_status_ref(&self) -> Result<&Self> {
        if self.status.is_client_error() || self.status.is_server_error() {
            return Err(Error { kind: Kind::Status(self.status), url: Some(self.url.clone()), source: None });
        }
        Ok(self)
    }
    pub fn bytes_stream(self) -> impl Stream<Item = Result<Bytes>> + Send + Unpin {
        let Response { body, len, url, deadline, .. } = self;
        let st = (body, len, url, deadline, false);
        futures::stream::unfold(st, |(mut body, mut left, url, deadline, done)| async move {
            if done || left == Some(0) {
                return None;
            }
            let next = match deadline {
                Some(d) => match tokio::time::timeout_at(d, body.next()).await {
                    Ok(n) => n,
                    Err(_) => {
                        let e = Error::new(Kind::Body, timed_out(&url)).with(&url);
                        return Some((Err(e), (body, left, url, deadline, true)));
                    }
                },
                None => body.next().await,
            };
            match next {
                None => match left {
                    Some(n) if n > 0 => {
                        let e = Error::new(
                            Kind::Decode,
                            msg("end of file before message length reached"),
                        )
                        .with(&url);
                        Some((Err(e), (body, left, url, deadline, true)))
                    }
                    _ => None,
                },
                Some(Err(s)) => {
                    let e = Error::new(Kind::Decode, msg(s)).with(&url);
                    Some((Err(e), (body, left, url, deadline, true)))
                }
                Some(Ok(mut b)) => {
                    if let Some(n) = left.as_mut() {
                        if b.len() as u64 > *n {
                            b.truncate(*n as usize);
                        }
                        *n -= b.len() as u64;
                    }
                    Some((Ok(b), (body, left, url, deadline, false)))
                }
            }
        })
        .boxed()
    }
    pub async fn bytes(self) -> Result<Bytes> {
        let mut s = self.bytes_stream();
        let mut all = vec![];
        while let Some(c) = s.next().await {
            all.extend_from_slice(&c?);
        }
        Ok(all.into())
    }
    pub async fn text(self) -> Result<String> {
        Ok(String::from_utf8_lossy(&self.bytes().await?).into_owned())
    }
    pub async fn json<T: DeserializeOwned>(self) -> Result<T> {
        let u = self.url.clone();
        let b = self.bytes().await?;
        serde_json::from_slice(&b).map_err(|e| Error::new(Kind::Decode, e).with(&u))
    }
    pub async fn chunk(&mut self) -> Result<Option<Bytes>> {
        self.body.next().await.transpose().map_err(|e| Error::new(Kind::Decode, msg(e)))
    }
}
