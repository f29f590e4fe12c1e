use crate::body::Body;
pub use crate::extract::Json;
use http::StatusCode;

pub type Response<T = Body> = http::Response<T>;

pub trait IntoResponse {
    fn into_response(self) -> Response;
}
impl IntoResponse for Response {
    fn into_response(self) -> Response {
        self
    }
}
impl IntoResponse for StatusCode {
    fn into_response(self) -> Response {
        let mut r = Response::new(Body::empty());
        *r.status_mut() = self;
        r
    }
}
impl IntoResponse for &'static str {
    fn into_response(self) -> Response {
        self.to_string().into_response()
    }
}
impl IntoResponse for String {
    fn into_response(self) -> Response {
        Response::builder().header("content-type", "text/plain; charset=utf-8").body(self.into()).unwrap()
    }
}
impl<R: IntoResponse> IntoResponse for (StatusCode, R) {
    fn into_response(self) -> Response {
        let mut r = self.1.into_response();
        *r.status_mut() = self.0;
        r
    }
}
impl<T: IntoResponse, E: IntoResponse> IntoResponse for Result<T, E> {
    fn into_response(self) -> Response {
        match self {
            Ok(r) => r.into_response(),
            Err(r) => r.into_response(),
        }
    }
}
impl<T: serde::Serialize> IntoResponse for Json<T> {
    fn into_response(self) -> Response {
        match serde_json::to_vec(&self.0) {
            Ok(b) => Response::builder().header("content-type", "application/json").body(b.into()).unwrap(),
            Err(e) => (StatusCode::INTERNAL_SERVER_ERROR, e.to_string()).into_response(),
        }
    }
}
