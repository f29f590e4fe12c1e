//! Stand-in for `tower`: the first layer of a builder is the outermost.
pub use tower_layer::Layer;

#[derive(Clone, Debug, Default)]
pub struct Identity;
impl<S> Layer<S> for Identity {
    type Service = S;
    fn layer(&self, inner: S) -> S {
        inner
    }
}
#[derive(Clone, Debug)]
pub struct Stack<Inner, Outer>(Inner, Outer);
impl<S, I: Layer<S>, O: Layer<I::Service>> Layer<S> for Stack<I, O> {
    type Service = O::Service;
    fn layer(&self, inner: S) -> O::Service {
        self.1.layer(self.0.layer(inner))
    }
}
#[derive(Clone, Debug)]
pub struct ServiceBuilder<L>(L);
impl ServiceBuilder<Identity> {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        ServiceBuilder(Identity)
    }
}
impl<L> ServiceBuilder<L> {
    pub fn layer<T>(self, layer: T) -> ServiceBuilder<Stack<T, L>> {
        ServiceBuilder(Stack(layer, self.0))
    }
}
impl<S, L: Layer<S>> Layer<S> for ServiceBuilder<L> {
    type Service = L::Service;
    fn layer(&self, inner: S) -> L::Service {
        self.0.layer(inner)
    }
}
