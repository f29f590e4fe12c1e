//! Stand-in for `cadence`: metrics are dropped.
use std::net::{ToSocketAddrs, UdpSocket};
use std::time::Duration;
pub trait MetricSink {
    fn emit(&self, metric: &str) -> std::io::Result<usize>;
    fn flush(&self) -> std::io::Result<()> {
        Ok(())
    }
}
#[derive(Debug)]
pub struct NopMetricSink;
impl MetricSink for NopMetricSink {
    fn emit(&self, m: &str) -> std::io::Result<usize> {
        Ok(m.len())
    }
}
#[derive(Debug)]
pub struct BufferedUdpMetricSink;
impl BufferedUdpMetricSink {
    pub fn from<A: ToSocketAddrs>(_a: A, _s: UdpSocket) -> std::io::Result<Self> {
        Ok(BufferedUdpMetricSink)
    }
}
impl MetricSink for BufferedUdpMetricSink {
    fn emit(&self, m: &str) -> std::io::Result<usize> {
        Ok(m.len())
    }
}
#[derive(Debug)]
pub struct QueuingMetricSink;
impl QueuingMetricSink {
    pub fn from<T: MetricSink>(_s: T) -> Self {
        QueuingMetricSink
    }
}
impl MetricSink for QueuingMetricSink {
    fn emit(&self, m: &str) -> std::io::Result<usize> {
        Ok(m.len())
    }
}
#[derive(Debug)]
pub struct StatsdClient;
pub struct StatsdClientBuilder;
impl StatsdClientBuilder {
    pub fn with_tag(self, _k: impl ToString, _v: impl ToString) -> Self {
        self
    }
    pub fn build(self) -> StatsdClient {
        StatsdClient
    }
}
impl StatsdClient {
    pub fn builder<T>(_p: &str, _s: T) -> StatsdClientBuilder {
        StatsdClientBuilder
    }
    pub fn flush(&self) -> Result<(), std::io::Error> {
        Ok(())
    }
}
pub struct MetricBuilder;
impl MetricBuilder {
    pub fn with_tag(self, _k: &str, _v: &str) -> Self {
        self
    }
    pub fn send(self) {}
    pub fn try_send(self) -> Result<(), std::io::Error> {
        Ok(())
    }
}
macro_rules! m {
    ($($t:ident $f:ident $ft:ident),*) => { $(pub trait $t<T> {
        fn $f(&self, k: &str, v: T) -> Result<(), std::io::Error>;
        fn $ft<'a>(&'a self, k: &'a str, v: T) -> MetricBuilder;
    }
    impl<T> $t<T> for StatsdClient {
        fn $f(&self, _: &str, _: T) -> Result<(), std::io::Error> { Ok(()) }
        fn $ft<'a>(&'a self, _: &'a str, _: T) -> MetricBuilder { MetricBuilder }
    })* };
}
m!(Counted count count_with_tags, Gauged gauge gauge_with_tags, Timed time time_with_tags,
   Histogrammed histogram histogram_with_tags, Distributed distribution distribution_with_tags,
   Setted set set_with_tags);
#[allow(dead_code)]
type D = Duration;
