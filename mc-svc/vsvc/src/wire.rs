//! A scripted network.
use crate::ctl::gate;
use bytes::Bytes;
use futures::stream::{self, BoxStream, StreamExt};
use reqwest::{Fail, Hop, Reply, Transport};
use std::cell::RefCell;
use std::future::Future;
use std::net::IpAddr;
use std::pin::Pin;
use std::sync::Arc;
use std::time::Duration;

#[derive(Clone, Debug, PartialEq)]
pub enum Chunk {
    Data(Vec<u8>),
    /// The connection breaks.
    Break,
    /// Nothing comes any more.
    Hang,
    Wait(Duration),
    /// Goes on when the controller says so.
    Gate(String),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Wire {
    Reply { status: u16, headers: Vec<(String, String)>, body: Vec<Chunk> },
    /// No connection.
    Refused,
    /// The connection breaks before a response.
    Broken,
    /// No response.
    Hang,
    /// A response after a while.
    Late(Duration, Box<Wire>),
    /// The controller answers with a `Wire`.
    Gate(String),
}
impl Wire {
    /// A complete response.
    pub fn ok(status: u16, body: &[u8]) -> Wire {
        Wire::Reply { status, headers: vec![("content-length".into(), body.len().to_string())], body: vec![Chunk::Data(body.to_vec())] }
    }
    pub fn status(status: u16) -> Wire {
        Wire::ok(status, b"some body")
    }
    pub fn body(len: Option<usize>, body: Vec<Chunk>) -> Wire {
        Wire::Reply { status: 200, headers: len.map(|l| ("content-length".to_string(), l.to_string())).into_iter().collect(), body }
    }
    pub fn header(mut self, k: &str, v: impl ToString) -> Wire {
        if let Wire::Reply { headers, .. } = &mut self {
            headers.retain(|h| !h.0.eq_ignore_ascii_case(k));
            headers.push((k.into(), v.to_string()));
        }
        self
    }
}
type Script = Arc<dyn Fn(&Hop) -> Wire + Send + Sync>;
thread_local! {
    static HOPS: RefCell<Vec<Hop>> = const { RefCell::new(vec![]) };
}
/// Requests since the last call.
pub fn take_hops() -> Vec<Hop> {
    HOPS.with(|h| std::mem::take(&mut *h.borrow_mut()))
}
struct Net {
    script: Script,
    hosts: Arc<dyn Fn(&str) -> Vec<IpAddr> + Send + Sync>,
}
fn play(chunks: Vec<Chunk>) -> BoxStream<'static, Result<Bytes, String>> {
    stream::iter(chunks)
        .then(|c| async move {
            match c {
                Chunk::Data(b) => Some(Ok(Bytes::from(b))),
                Chunk::Break => Some(Err("connection reset".to_string())),
                Chunk::Hang => std::future::pending().await,
                Chunk::Gate(l) => {
                    gate::<()>(l).await;
                    None
                }
                Chunk::Wait(d) => {
                    tokio::time::sleep(d).await;
                    None
                }
            }
        })
        .filter_map(|x| async move { x })
        .boxed()
}
impl Transport for Net {
    fn resolve(&self, host: &str) -> Vec<IpAddr> {
        (self.hosts)(host)
    }
    fn send(&self, hop: Hop) -> Pin<Box<dyn Future<Output = Result<Reply, Fail>> + Send>> {
        let mut w = (self.script)(&hop);
        HOPS.with(|h| h.borrow_mut().push(hop));
        Box::pin(async move {
            loop {
                match w {
                    Wire::Gate(l) => w = gate::<Wire>(l).await,
                    Wire::Late(d, then) => {
                        tokio::time::sleep(d).await;
                        w = *then;
                    }
                    Wire::Refused => return Err(Fail::Connect("connection refused".into())),
                    Wire::Broken => return Err(Fail::Request("connection closed before message completed".into())),
                    Wire::Hang => std::future::pending().await,
                    Wire::Reply { status, headers, body } => return Ok(Reply { status, headers, body: play(body) }),
                }
            }
        })
    }
}
pub fn install(f: impl Fn(&Hop) -> Wire + Send + Sync + 'static) {
    install_with(f, |_| vec![[93, 184, 216, 34].into()])
}
pub fn install_with(f: impl Fn(&Hop) -> Wire + Send + Sync + 'static, hosts: impl Fn(&str) -> Vec<IpAddr> + Send + Sync + 'static) {
    take_hops();
    reqwest::set_transport(Some(Arc::new(Net { script: Arc::new(f), hosts: Arc::new(hosts) })));
}
