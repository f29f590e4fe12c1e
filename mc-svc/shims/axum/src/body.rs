use bytes::Bytes;
use futures::stream::{BoxStream, StreamExt};
use futures::Stream;

type BoxError = Box<dyn std::error::Error + Send + Sync>;
pub struct Body(pub(crate) BoxStream<'static, Result<Bytes, BoxError>>);
impl Body {
    pub fn empty() -> Body {
        Body(futures::stream::empty().boxed())
    }
    pub fn from_stream<S, O, E>(stream: S) -> Body
    where
        S: Stream<Item = Result<O, E>> + Send + 'static,
        O: Into<Bytes> + 'static,
        E: Into<BoxError> + 'static,
    {
        Body(stream.map(|c| c.map(Into::into).map_err(Into::into)).boxed())
    }
    /// The whole body.
    pub async fn collect(mut self) -> Result<Vec<u8>, String> {
        let mut all = vec![];
        while let Some(c) = self.0.next().await {
            all.extend_from_slice(&c.map_err(|e| e.to_string())?);
        }
        Ok(all)
    }
}
impl From<Vec<u8>> for Body {
    fn from(b: Vec<u8>) -> Body {
        Body(futures::stream::iter([Ok(b.into())]).boxed())
    }
}
impl From<String> for Body {
    fn from(b: String) -> Body {
        b.into_bytes().into()
    }
}
