//! Stand-in for `axum`: routes, layers, extractors and responses, without any sockets.
use std::convert::Infallible;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use tower_layer::Layer;
use tower_service::Service;

pub mod body;
pub mod extract;
pub mod response;
pub mod http {
    pub use ::http::*;
}
pub use extract::Json;
use body::Body;
use extract::{Ctx, FromRequest};
use response::{IntoResponse, Response};
pub type Request = ::http::Request<Body>;
type BoxFuture<T> = Pin<Box<dyn Future<Output = T> + Send>>;

/// A service for one route.
#[derive(Clone)]
pub struct Route(Arc<dyn Fn(Request) -> BoxFuture<Result<Response, Infallible>> + Send + Sync>);
impl Route {
    fn new<V>(service: V) -> Route
    where
        V: Service<Request, Response = Response, Error = Infallible> + Clone + Send + 'static,
        V::Future: Send + 'static,
    {
        let service = Mutex::new(service);
        Route(Arc::new(move |req| {
            let mut service = service.lock().unwrap().clone();
            Box::pin(service.call(req))
        }))
    }
}
impl Service<Request> for Route {
    type Response = Response;
    type Error = Infallible;
    type Future = BoxFuture<Result<Response, Infallible>>;
    fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), Infallible>> {
        Poll::Ready(Ok(()))
    }
    fn call(&mut self, req: Request) -> Self::Future {
        (self.0)(req)
    }
}

pub trait Handler<T, S>: Clone + Send + Sync + 'static {
    fn handle(self, ctx: Ctx, state: S) -> BoxFuture<Response>;
}
macro_rules! handler {
    ($($a:ident)*) => {
        #[allow(non_snake_case, unused_mut, unused_variables)]
        impl<F, Fut, R, S, $($a),*> Handler<($($a,)*), S> for F
        where
            F: FnOnce($($a),*) -> Fut + Clone + Send + Sync + 'static,
            Fut: Future<Output = R> + Send,
            R: IntoResponse,
            S: Clone + Send + Sync + 'static,
            $($a: FromRequest<S> + Send,)*
        {
            fn handle(self, mut ctx: Ctx, state: S) -> BoxFuture<Response> {
                Box::pin(async move {
                    $(let $a = match $a::from_ctx(&mut ctx, &state).await {
                        Ok(x) => x,
                        Err(r) => return r,
                    };)*
                    self($($a),*).await.into_response()
                })
            }
        }
    };
}
handler!();
handler!(A);
handler!(A B);
handler!(A B C);
handler!(A B C D);

type Make<S> = Arc<dyn Fn(S) -> Route + Send + Sync>;
fn make<T: 'static, S: Clone + Send + Sync + 'static>(h: impl Handler<T, S>) -> Make<S> {
    Arc::new(move |state| {
        let h = h.clone();
        Route(Arc::new(move |req| {
            let (h, state) = (h.clone(), state.clone());
            Box::pin(async move { Ok(h.handle(Ctx::new(req), state).await) })
        }))
    })
}

#[derive(Clone)]
pub struct MethodRouter<S = ()> {
    methods: Vec<(::http::Method, Make<S>)>,
}
impl<S: Clone + Send + Sync + 'static> MethodRouter<S> {
    fn on<T: 'static>(mut self, method: ::http::Method, h: impl Handler<T, S>) -> Self {
        self.methods.push((method, make(h)));
        self
    }
    pub fn get<T: 'static>(self, h: impl Handler<T, S>) -> Self {
        self.on(::http::Method::GET, h)
    }
    pub fn head<T: 'static>(self, h: impl Handler<T, S>) -> Self {
        self.on(::http::Method::HEAD, h)
    }
    pub fn post<T: 'static>(self, h: impl Handler<T, S>) -> Self {
        self.on(::http::Method::POST, h)
    }
    pub fn layer<L>(self, layer: L) -> Self
    where
        L: Layer<Route> + Clone + Send + Sync + 'static,
        L::Service: Service<Request, Response = Response, Error = Infallible> + Clone + Send + 'static,
        <L::Service as Service<Request>>::Future: Send + 'static,
    {
        let wrap = |m: Make<S>| -> Make<S> {
            let layer = layer.clone();
            Arc::new(move |s| Route::new(layer.layer(m(s))))
        };
        MethodRouter { methods: self.methods.into_iter().map(|(k, m)| (k, wrap(m))).collect() }
    }
    fn with_state<S2: Clone + Send + Sync + 'static>(self, state: S) -> MethodRouter<S2> {
        let fix = |m: Make<S>| -> Make<S2> {
            let state = state.clone();
            Arc::new(move |_| m(state.clone()))
        };
        MethodRouter { methods: self.methods.into_iter().map(|(k, m)| (k, fix(m))).collect() }
    }
}
pub mod routing {
    pub use super::MethodRouter;
    use super::*;
    pub fn get<T: 'static, S: Clone + Send + Sync + 'static>(h: impl Handler<T, S>) -> MethodRouter<S> {
        MethodRouter { methods: vec![] }.get(h)
    }
    pub fn post<T: 'static, S: Clone + Send + Sync + 'static>(h: impl Handler<T, S>) -> MethodRouter<S> {
        MethodRouter { methods: vec![] }.post(h)
    }
    pub fn head<T: 'static, S: Clone + Send + Sync + 'static>(h: impl Handler<T, S>) -> MethodRouter<S> {
        MethodRouter { methods: vec![] }.head(h)
    }
}

#[derive(Clone)]
pub struct Router<S = ()> {
    routes: Vec<(String, MethodRouter<S>)>,
}
impl<S: Clone + Send + Sync + 'static> Router<S> {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        Router { routes: vec![] }
    }
    pub fn route(mut self, path: &str, m: MethodRouter<S>) -> Self {
        assert!(path.starts_with('/') && self.routes.iter().all(|r| r.0 != path));
        self.routes.push((path.into(), m));
        self
    }
    pub fn layer<L>(self, layer: L) -> Self
    where
        L: Layer<Route> + Clone + Send + Sync + 'static,
        L::Service: Service<Request, Response = Response, Error = Infallible> + Clone + Send + 'static,
        <L::Service as Service<Request>>::Future: Send + 'static,
    {
        Router { routes: self.routes.into_iter().map(|(p, m)| (p, m.layer(layer.clone()))).collect() }
    }
    pub fn with_state<S2: Clone + Send + Sync + 'static>(self, state: S) -> Router<S2> {
        Router { routes: self.routes.into_iter().map(|(p, m)| (p, m.with_state(state.clone()))).collect() }
    }
}
impl Router<()> {
    /// Answers a request.
    pub fn ask(&self, mut req: Request) -> BoxFuture<Response> {
        let path = req.uri().path().to_string();
        for (pattern, methods) in &self.routes {
            let Some(params) = matches(pattern, &path) else { continue };
            let find = |m: &::http::Method| methods.methods.iter().find(|(k, _)| k == m);
            let found = find(req.method());
            let strip = found.is_none() && req.method() == ::http::Method::HEAD;
            let Some((_, make)) = found.or_else(|| find(&::http::Method::GET).filter(|_| strip)) else {
                return Box::pin(std::future::ready(::http::StatusCode::METHOD_NOT_ALLOWED.into_response()));
            };
            req.extensions_mut().insert(extract::Params(params));
            let mut route = make(());
            return Box::pin(async move {
                let mut r = route.call(req).await.unwrap();
                if strip {
                    *r.body_mut() = Body::empty();
                }
                r
            });
        }
        Box::pin(std::future::ready(::http::StatusCode::NOT_FOUND.into_response()))
    }
}
fn matches(pattern: &str, path: &str) -> Option<Vec<String>> {
    let mut params = vec![];
    let mut rest = path;
    for part in pattern.split('/').skip(1) {
        rest = rest.strip_prefix('/')?;
        if part.starts_with('*') {
            if rest.is_empty() {
                return None;
            }
            params.push(rest.to_string());
            return Some(params);
        }
        let (head, tail) = rest.split_at(rest.find('/').unwrap_or(rest.len()));
        if part.starts_with(':') {
            if head.is_empty() {
                return None;
            }
            params.push(head.to_string());
        } else if part != head {
            return None;
        }
        rest = tail;
    }
    rest.is_empty().then_some(params)
}
