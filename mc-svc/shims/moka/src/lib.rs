//! Stand-in for `moka` 0.12 with the same observable semantics and an eager, deterministic
//! bookkeeping: request coalescing with hand-over when the initialising future is dropped or
//! panics, per-entry expiry, time to live, time to idle, weighted capacity (an insert over the
//! capacity is evicted oldest first, capacity 0 retains nothing).
//! Time is `std::time::Instant`, which the harness controls.

use std::time::{Duration, Instant};

pub mod ops {
    pub mod compute {
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub enum Op<V> {
            Nop,
            Put(V),
            Remove,
        }
        #[derive(Debug)]
        pub enum CompResult<K, V> {
            Inserted(crate::Entry<K, V>),
            ReplacedWith(crate::Entry<K, V>),
            Removed(crate::Entry<K, V>),
            Unchanged(crate::Entry<K, V>),
            StillNone(std::sync::Arc<K>),
        }
        impl<K, V> CompResult<K, V> {
            pub fn into_entry(self) -> Option<crate::Entry<K, V>> {
                match self {
                    Self::Inserted(e) | Self::ReplacedWith(e) | Self::Removed(e) | Self::Unchanged(e) => Some(e),
                    Self::StillNone(_) => None,
                }
            }
            pub fn unwrap(self) -> crate::Entry<K, V> {
                self.into_entry().expect("entry")
            }
        }
    }
}

pub mod notification {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum RemovalCause {
        Expired,
        Explicit,
        Replaced,
        Size,
    }
}
use notification::RemovalCause;

pub trait Expiry<K, V> {
    fn expire_after_create(&self, _key: &K, _value: &V, _created_at: Instant) -> Option<Duration> {
        None
    }
    fn expire_after_read(
        &self,
        _key: &K,
        _value: &V,
        _read_at: Instant,
        duration_until_expiry: Option<Duration>,
        _last_modified_at: Instant,
    ) -> Option<Duration> {
        duration_until_expiry
    }
    fn expire_after_update(
        &self,
        _key: &K,
        _value: &V,
        _updated_at: Instant,
        duration_until_expiry: Option<Duration>,
    ) -> Option<Duration> {
        duration_until_expiry
    }
}

/// An entry as returned by the entry API.
#[derive(Debug)]
pub struct Entry<K, V> {
    key: Option<std::sync::Arc<K>>,
    value: V,
    fresh: bool,
    replaced: bool,
}
impl<K, V: Clone> Clone for Entry<K, V> {
    fn clone(&self) -> Self {
        Entry { key: self.key.clone(), value: self.value.clone(), fresh: self.fresh, replaced: self.replaced }
    }
}
impl<K, V> Entry<K, V> {
    pub fn key(&self) -> &K {
        self.key.as_deref().unwrap()
    }
    pub fn value(&self) -> &V {
        &self.value
    }
    pub fn into_value(self) -> V {
        self.value
    }
    pub fn is_fresh(&self) -> bool {
        self.fresh
    }
    pub fn is_old_value_replaced(&self) -> bool {
        self.replaced
    }
}

mod store {
    use super::*;
    use std::collections::HashMap;
    use std::hash::Hash;
    use std::sync::{Arc, Mutex};

    pub struct Rec<K, V> {
        pub key: Arc<K>,
        pub value: V,
        weight: u64,
        seq: u64,
        created: Instant,
        accessed: Instant,
        expires: Option<Instant>,
    }

    pub type Listener<K, V> = Box<dyn Fn(Arc<K>, V, RemovalCause) + Send + Sync>;

    pub struct Policy<K, V> {
        pub name: Option<String>,
        pub max_capacity: Option<u64>,
        pub weigher: Option<Box<dyn Fn(&K, &V) -> u32 + Send + Sync>>,
        pub expiry: Option<Box<dyn Expiry<K, V> + Send + Sync>>,
        pub ttl: Option<Duration>,
        pub tti: Option<Duration>,
        pub listener: Option<Listener<K, V>>,
    }
    impl<K, V> Policy<K, V> {
        pub fn new() -> Self {
            Policy { name: None, max_capacity: None, weigher: None, expiry: None, ttl: None, tti: None, listener: None }
        }
    }

    pub struct Store<K, V> {
        pub policy: Policy<K, V>,
        map: Mutex<(HashMap<Arc<K>, Rec<K, V>>, u64)>,
    }

    impl<K: Hash + Eq, V: Clone> Store<K, V> {
        pub fn new(policy: Policy<K, V>) -> Self {
            Store { policy, map: Mutex::new((HashMap::new(), 0)) }
        }
        fn live(&self, r: &Rec<K, V>, now: Instant) -> bool {
            if r.expires.is_some_and(|e| now >= e) {
                return false;
            }
            if let Some(t) = self.policy.ttl.and_then(|t| r.created.checked_add(t)) {
                if now >= t {
                    return false;
                }
            }
            if let Some(t) = self.policy.tti.and_then(|t| r.accessed.checked_add(t)) {
                if now >= t {
                    return false;
                }
            }
            true
        }
        fn notify(&self, gone: Vec<(Arc<K>, V, RemovalCause)>) {
            if let Some(l) = &self.policy.listener {
                for (k, v, c) in gone {
                    l(k, v, c)
                }
            }
        }
        /// Drops everything that expired or exceeds the capacity.
        pub fn maintain(&self) {
            let now = Instant::now();
            let mut gone = vec![];
            {
                let mut g = self.map.lock().unwrap();
                let dead: Vec<Arc<K>> =
                    g.0.values().filter(|r| !self.live(r, now)).map(|r| r.key.clone()).collect();
                for k in dead {
                    let r = g.0.remove(&k).unwrap();
                    gone.push((r.key, r.value, RemovalCause::Expired));
                }
                if let Some(cap) = self.policy.max_capacity {
                    while g.0.values().map(|r| r.weight).sum::<u64>() > cap || (cap == 0 && !g.0.is_empty()) {
                        let k = g.0.values().min_by_key(|r| r.seq).unwrap().key.clone();
                        let r = g.0.remove(&k).unwrap();
                        gone.push((r.key, r.value, RemovalCause::Size));
                    }
                }
            }
            self.notify(gone);
        }
        pub fn get<Q: Hash + Eq + ?Sized>(&self, key: &Q) -> Option<V>
        where
            Arc<K>: std::borrow::Borrow<Q>,
        {
            let now = Instant::now();
            let mut g = self.map.lock().unwrap();
            let r = g.0.get_mut(key)?;
            if !self.live(r, now) {
                drop(g);
                self.maintain();
                return None;
            }
            r.accessed = now;
            if let Some(e) = &self.policy.expiry {
                let left = r.expires.map(|t| t.saturating_duration_since(now));
                let new = e.expire_after_read(&r.key, &r.value, now, left, r.created);
                if new != left {
                    r.expires = new.and_then(|d| now.checked_add(d));
                }
            }
            Some(r.value.clone())
        }
        pub fn insert(&self, key: Arc<K>, value: V) -> bool {
            let now = Instant::now();
            let weight = self.policy.weigher.as_ref().map_or(1, |w| w(&key, &value) as u64);
            let mut gone = vec![];
            let replaced;
            {
                let mut g = self.map.lock().unwrap();
                g.1 += 1;
                let seq = g.1;
                let old = g.0.remove(&key);
                let old = old.filter(|r| self.live(r, now));
                replaced = old.is_some();
                let expires = self.policy.expiry.as_ref().and_then(|e| match &old {
                    Some(o) => e.expire_after_update(
                        &key,
                        &value,
                        now,
                        o.expires.map(|t| t.saturating_duration_since(now)),
                    ),
                    None => e.expire_after_create(&key, &value, now),
                });
                let expires = expires.and_then(|d| now.checked_add(d));
                if let Some(o) = old {
                    gone.push((o.key, o.value, RemovalCause::Replaced));
                }
                g.0.insert(
                    key.clone(),
                    Rec { key, value, weight, seq, created: now, accessed: now, expires },
                );
            }
            self.notify(gone);
            self.maintain();
            replaced
        }
        pub fn remove<Q: Hash + Eq + ?Sized>(&self, key: &Q) -> Option<V>
        where
            Arc<K>: std::borrow::Borrow<Q>,
        {
            let now = Instant::now();
            let r = self.map.lock().unwrap().0.remove(key)?;
            let live = self.live(&r, now);
            let v = r.value.clone();
            self.notify(vec![(r.key, r.value, RemovalCause::Explicit)]);
            live.then_some(v)
        }
        pub fn clear(&self) {
            self.map.lock().unwrap().0.clear();
        }
        pub fn count(&self) -> u64 {
            self.maintain();
            self.map.lock().unwrap().0.len() as u64
        }
        pub fn weight(&self) -> u64 {
            self.maintain();
            self.map.lock().unwrap().0.values().map(|r| r.weight).sum()
        }
        pub fn all(&self) -> Vec<(Arc<K>, V)> {
            self.maintain();
            self.map.lock().unwrap().0.values().map(|r| (r.key.clone(), r.value.clone())).collect()
        }
    }
}

macro_rules! builder {
    () => {
        pub struct CacheBuilder<K, V, C> {
            policy: Policy<K, V>,
            _c: std::marker::PhantomData<C>,
        }
        impl<K: Hash + Eq + Send + Sync + 'static, V: Clone + Send + Sync + 'static> Default
            for CacheBuilder<K, V, Cache<K, V>>
        {
            fn default() -> Self {
                CacheBuilder { policy: Policy::new(), _c: std::marker::PhantomData }
            }
        }
        impl<K: Hash + Eq + Send + Sync + 'static, V: Clone + Send + Sync + 'static>
            CacheBuilder<K, V, Cache<K, V>>
        {
            pub fn new(max_capacity: u64) -> Self {
                Self::default().max_capacity(max_capacity)
            }
            pub fn max_capacity(mut self, n: u64) -> Self {
                self.policy.max_capacity = Some(n);
                self
            }
            pub fn initial_capacity(self, _n: usize) -> Self {
                self
            }
            pub fn name(mut self, n: &str) -> Self {
                self.policy.name = Some(n.to_string());
                self
            }
            pub fn weigher(mut self, w: impl Fn(&K, &V) -> u32 + Send + Sync + 'static) -> Self {
                self.policy.weigher = Some(Box::new(w));
                self
            }
            pub fn expire_after(mut self, e: impl Expiry<K, V> + Send + Sync + 'static) -> Self {
                self.policy.expiry = Some(Box::new(e));
                self
            }
            pub fn time_to_live(mut self, d: Duration) -> Self {
                self.policy.ttl = Some(d);
                self
            }
            pub fn time_to_idle(mut self, d: Duration) -> Self {
                self.policy.tti = Some(d);
                self
            }
            pub fn eviction_listener(
                mut self,
                l: impl Fn(Arc<K>, V, RemovalCause) + Send + Sync + 'static,
            ) -> Self {
                self.policy.listener = Some(Box::new(l));
                self
            }
            pub fn support_invalidation_closures(self) -> Self {
                self
            }
            pub fn build(self) -> Cache<K, V> {
                Cache::from_policy(self.policy)
            }
        }
    };
}

pub mod future {
    use super::ops::compute::{CompResult, Op};
    use super::store::{Policy, Store};
    use super::*;
    use std::collections::HashMap;
    use std::future::Future;
    use std::hash::Hash;
    use std::panic::AssertUnwindSafe;
    use std::sync::{Arc, Mutex};
    use tokio::sync::{OwnedRwLockWriteGuard, RwLock};

    pub use super::notification;
    pub use super::Entry;

    builder!();

    enum Wait<V> {
        Computing,
        Ready(V),
        /// The future was dropped or panicked: somebody else takes over.
        Gone,
    }

    type Waiters<K, V> = Mutex<HashMap<Arc<K>, Arc<RwLock<Wait<V>>>>>;

    struct Inner<K, V> {
        store: Store<K, V>,
        waiters: Waiters<K, V>,
        computes: Mutex<HashMap<Arc<K>, Arc<tokio::sync::Mutex<()>>>>,
    }

    pub struct Cache<K, V> {
        inner: Arc<Inner<K, V>>,
    }
    impl<K, V> Clone for Cache<K, V> {
        fn clone(&self) -> Self {
            Cache { inner: self.inner.clone() }
        }
    }
    impl<K, V> std::fmt::Debug for Cache<K, V> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.debug_struct("Cache").field("name", &self.inner.store.policy.name).finish()
        }
    }

    struct WaitGuard<'a, K: Hash + Eq, V> {
        inner: &'a Inner<K, V>,
        key: Arc<K>,
        lock: Option<OwnedRwLockWriteGuard<Wait<V>>>,
    }
    impl<K: Hash + Eq, V> WaitGuard<'_, K, V> {
        fn set(&mut self, w: Wait<V>) {
            if let Some(mut l) = self.lock.take() {
                *l = w;
                self.inner.waiters.lock().unwrap().remove(&self.key);
            }
        }
    }
    impl<K: Hash + Eq, V> Drop for WaitGuard<'_, K, V> {
        fn drop(&mut self) {
            self.set(Wait::Gone);
        }
    }

    impl<K: Hash + Eq + Send + Sync + 'static, V: Clone + Send + Sync + 'static> Cache<K, V> {
        fn from_policy(p: Policy<K, V>) -> Self {
            Cache {
                inner: Arc::new(Inner {
                    store: Store::new(p),
                    waiters: Default::default(),
                    computes: Default::default(),
                }),
            }
        }
        pub fn new(max_capacity: u64) -> Self {
            Self::builder().max_capacity(max_capacity).build()
        }
        pub fn builder() -> CacheBuilder<K, V, Self> {
            CacheBuilder::default()
        }
        pub fn name(&self) -> Option<&str> {
            self.inner.store.policy.name.as_deref()
        }
        pub fn entry_count(&self) -> u64 {
            self.inner.store.count()
        }
        pub fn weighted_size(&self) -> u64 {
            self.inner.store.weight()
        }
        pub async fn get(&self, key: &K) -> Option<V> {
            self.inner.store.get(key)
        }
        pub fn contains_key(&self, key: &K) -> bool {
            self.inner.store.get(key).is_some()
        }
        pub async fn insert(&self, key: K, value: V) {
            self.inner.store.insert(Arc::new(key), value);
        }
        pub async fn invalidate(&self, key: &K) {
            self.inner.store.remove(key);
        }
        pub async fn remove(&self, key: &K) -> Option<V> {
            self.inner.store.remove(key)
        }
        pub fn invalidate_all(&self) {
            self.inner.store.clear()
        }
        pub async fn run_pending_tasks(&self) {
            self.inner.store.maintain()
        }
        pub fn iter(&self) -> std::vec::IntoIter<(Arc<K>, V)> {
            self.inner.store.all().into_iter()
        }
        pub fn entry(&self, key: K) -> OwnedKeyEntrySelector<'_, K, V> {
            OwnedKeyEntrySelector { key: Arc::new(key), cache: self }
        }
        pub fn entry_by_ref<'a>(&'a self, key: &'a K) -> RefKeyEntrySelector<'a, K, V>
        where
            K: Clone,
        {
            RefKeyEntrySelector(OwnedKeyEntrySelector { key: Arc::new(key.clone()), cache: self })
        }
        pub async fn get_with(&self, key: K, init: impl Future<Output = V>) -> V {
            self.entry(key).or_insert_with(init).await.into_value()
        }
        pub async fn get_with_by_ref(&self, key: &K, init: impl Future<Output = V>) -> V
        where
            K: Clone,
        {
            self.entry(key.clone()).or_insert_with(init).await.into_value()
        }
        pub async fn try_get_with<E: Send + Sync + 'static>(
            &self,
            key: K,
            init: impl Future<Output = Result<V, E>>,
        ) -> Result<V, Arc<E>> {
            // coalesced like or_insert_with, errors are not cached
            let lock = self.compute_lock(&Arc::new(key)).1;
            let key = lock.0;
            let _g = lock.1.lock_owned().await;
            if let Some(v) = self.inner.store.get(&*key) {
                return Ok(v);
            }
            let v = init.await.map_err(Arc::new)?;
            self.inner.store.insert(key, v.clone());
            Ok(v)
        }
        #[allow(clippy::type_complexity)]
        fn compute_lock(&self, key: &Arc<K>) -> ((), (Arc<K>, Arc<tokio::sync::Mutex<()>>)) {
            let mut g = self.inner.computes.lock().unwrap();
            let l = g.entry(key.clone()).or_default().clone();
            ((), (key.clone(), l))
        }

        async fn init(
            &self,
            key: Arc<K>,
            init: impl Future<Output = V>,
            mut replace_if: Option<&mut (dyn FnMut(&V) -> bool + Send)>,
        ) -> Entry<K, V> {
            let mut init = Some(init);
            loop {
                let mut old = false;
                if let Some(v) = self.inner.store.get(&*key) {
                    if replace_if.as_mut().is_some_and(|f| f(&v)) {
                        old = true;
                    } else {
                        return Entry { key: Some(key), value: v, fresh: false, replaced: false };
                    }
                }
                let mine: Arc<RwLock<Wait<V>>> = Arc::new(RwLock::new(Wait::Computing));
                let lock = mine.clone().try_write_owned().unwrap();
                let other = {
                    let mut w = self.inner.waiters.lock().unwrap();
                    match w.get(&key) {
                        Some(o) => Some(o.clone()),
                        None => {
                            w.insert(key.clone(), mine.clone());
                            None
                        }
                    }
                };
                if let Some(other) = other {
                    drop(lock);
                    let r = other.read().await;
                    match &*r {
                        Wait::Ready(v) => {
                            return Entry { key: Some(key), value: v.clone(), fresh: false, replaced: false }
                        }
                        _ => continue,
                    }
                }
                let mut guard = WaitGuard { inner: &self.inner, key: key.clone(), lock: Some(lock) };
                // Somebody may have finished in between.
                if let Some(v) = self.inner.store.get(&*key) {
                    if !replace_if.as_mut().is_some_and(|f| f(&v)) {
                        guard.set(Wait::Ready(v.clone()));
                        return Entry { key: Some(key), value: v, fresh: false, replaced: false };
                    }
                    old = true;
                }
                let fut = init.take().expect("the initialiser runs once");
                let res = futures::FutureExt::catch_unwind(AssertUnwindSafe(fut)).await;
                match res {
                    Ok(v) => {
                        self.inner.store.insert(key.clone(), v.clone());
                        guard.set(Wait::Ready(v.clone()));
                        return Entry { key: Some(key), value: v, fresh: true, replaced: old };
                    }
                    Err(p) => {
                        drop(guard);
                        std::panic::resume_unwind(p)
                    }
                }
            }
        }
    }

    pub struct OwnedKeyEntrySelector<'a, K, V> {
        key: Arc<K>,
        cache: &'a Cache<K, V>,
    }
    impl<K: Hash + Eq + Send + Sync + 'static, V: Clone + Send + Sync + 'static>
        OwnedKeyEntrySelector<'_, K, V>
    {
        pub async fn or_insert_with(self, init: impl Future<Output = V>) -> Entry<K, V> {
            self.cache.init(self.key, init, None).await
        }
        pub async fn or_insert_with_if(
            self,
            init: impl Future<Output = V>,
            mut replace_if: impl FnMut(&V) -> bool + Send,
        ) -> Entry<K, V> {
            self.cache.init(self.key, init, Some(&mut replace_if)).await
        }
        pub async fn or_insert(self, v: V) -> Entry<K, V> {
            self.cache.init(self.key, async move { v }, None).await
        }
        pub async fn or_default(self) -> Entry<K, V>
        where
            V: Default,
        {
            self.or_insert(V::default()).await
        }
        pub async fn and_upsert_with<F, Fut>(self, f: F) -> Entry<K, V>
        where
            F: FnOnce(Option<Entry<K, V>>) -> Fut,
            Fut: Future<Output = V>,
        {
            self.and_compute_with(|e| {
                let f = f(e);
                async move { Op::Put(f.await) }
            })
            .await
            .into_entry()
            .unwrap()
        }
        pub async fn and_compute_with<F, Fut>(self, f: F) -> CompResult<K, V>
        where
            F: FnOnce(Option<Entry<K, V>>) -> Fut,
            Fut: Future<Output = Op<V>>,
        {
            let (key, lock) = self.cache.compute_lock(&self.key).1;
            let _g = lock.lock_owned().await;
            let store = &self.cache.inner.store;
            let old = store.get(&*key).map(|value| Entry {
                key: Some(key.clone()),
                value,
                fresh: false,
                replaced: false,
            });
            match f(old.clone()).await {
                Op::Nop => match old {
                    Some(e) => CompResult::Unchanged(e),
                    None => CompResult::StillNone(key),
                },
                Op::Put(v) => {
                    store.insert(key.clone(), v.clone());
                    let e = Entry { key: Some(key), value: v, fresh: true, replaced: old.is_some() };
                    match old {
                        Some(_) => CompResult::ReplacedWith(e),
                        None => CompResult::Inserted(e),
                    }
                }
                Op::Remove => {
                    store.remove(&*key);
                    match old {
                        Some(e) => CompResult::Removed(e),
                        None => CompResult::StillNone(key),
                    }
                }
            }
        }
    }

    pub struct RefKeyEntrySelector<'a, K, V>(OwnedKeyEntrySelector<'a, K, V>);
    impl<K: Hash + Eq + Send + Sync + 'static, V: Clone + Send + Sync + 'static>
        RefKeyEntrySelector<'_, K, V>
    {
        pub async fn or_insert_with(self, init: impl Future<Output = V>) -> Entry<K, V> {
            self.0.or_insert_with(init).await
        }
        pub async fn or_insert_with_if(
            self,
            init: impl Future<Output = V>,
            replace_if: impl FnMut(&V) -> bool + Send,
        ) -> Entry<K, V> {
            self.0.or_insert_with_if(init, replace_if).await
        }
        pub async fn or_insert(self, v: V) -> Entry<K, V> {
            self.0.or_insert(v).await
        }
        pub async fn or_default(self) -> Entry<K, V>
        where
            V: Default,
        {
            self.0.or_default().await
        }
        pub async fn and_compute_with<F, Fut>(self, f: F) -> CompResult<K, V>
        where
            F: FnOnce(Option<Entry<K, V>>) -> Fut,
            Fut: Future<Output = Op<V>>,
        {
            self.0.and_compute_with(f).await
        }
    }
}

pub mod sync {
    use super::store::{Policy, Store};
    use super::*;
    use std::borrow::Borrow;
    use std::hash::Hash;
    use std::sync::Arc;

    pub use super::Entry;

    builder!();

    pub struct Cache<K, V> {
        inner: Arc<(Store<K, V>, std::sync::Mutex<()>)>,
    }
    impl<K, V> Clone for Cache<K, V> {
        fn clone(&self) -> Self {
            Cache { inner: self.inner.clone() }
        }
    }
    impl<K, V> std::fmt::Debug for Cache<K, V> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.debug_struct("Cache").finish()
        }
    }
    impl<K: Hash + Eq + Send + Sync + 'static, V: Clone + Send + Sync + 'static> Cache<K, V> {
        fn from_policy(p: Policy<K, V>) -> Self {
            Cache { inner: Arc::new((Store::new(p), std::sync::Mutex::new(()))) }
        }
        pub fn new(max_capacity: u64) -> Self {
            Self::builder().max_capacity(max_capacity).build()
        }
        pub fn builder() -> CacheBuilder<K, V, Self> {
            CacheBuilder::default()
        }
        pub fn entry_count(&self) -> u64 {
            self.inner.0.count()
        }
        pub fn weighted_size(&self) -> u64 {
            self.inner.0.weight()
        }
        fn find<Q: Hash + Eq + ?Sized>(&self, key: &Q) -> Option<(Arc<K>, V)>
        where
            K: Borrow<Q>,
        {
            let k = self.inner.0.all().into_iter().map(|e| e.0).find(|k| (**k).borrow() == key)?;
            let v = self.inner.0.get(&*k)?;
            Some((k, v))
        }
        pub fn get<Q: Hash + Eq + ?Sized>(&self, key: &Q) -> Option<V>
        where
            K: Borrow<Q>,
        {
            self.find(key).map(|e| e.1)
        }
        pub fn contains_key<Q: Hash + Eq + ?Sized>(&self, key: &Q) -> bool
        where
            K: Borrow<Q>,
        {
            // unlike `get` this does not count as an access
            self.inner.0.all().iter().any(|e| (*e.0).borrow() == key)
        }
        pub fn insert(&self, key: K, value: V) {
            self.inner.0.insert(Arc::new(key), value);
        }
        pub fn invalidate<Q: Hash + Eq + ?Sized>(&self, key: &Q)
        where
            K: Borrow<Q>,
        {
            self.remove(key);
        }
        pub fn remove<Q: Hash + Eq + ?Sized>(&self, key: &Q) -> Option<V>
        where
            K: Borrow<Q>,
        {
            let (k, _) = self.find(key)?;
            self.inner.0.remove(&*k)
        }
        pub fn invalidate_all(&self) {
            self.inner.0.clear()
        }
        pub fn run_pending_tasks(&self) {
            self.inner.0.maintain()
        }
        pub fn iter(&self) -> std::vec::IntoIter<(Arc<K>, V)> {
            self.inner.0.all().into_iter()
        }
        pub fn get_with(&self, key: K, init: impl FnOnce() -> V) -> V {
            self.entry(key).or_insert_with(init).into_value()
        }
        pub fn entry(&self, key: K) -> EntrySelector<'_, K, V> {
            EntrySelector { key, cache: self }
        }
        pub fn entry_by_ref<Q: Hash + Eq + ToOwned<Owned = K> + ?Sized>(&self, key: &Q) -> EntrySelector<'_, K, V>
        where
            K: Borrow<Q>,
        {
            EntrySelector { key: key.to_owned(), cache: self }
        }
    }
    pub struct EntrySelector<'a, K, V> {
        key: K,
        cache: &'a Cache<K, V>,
    }
    impl<K: Hash + Eq + Send + Sync + 'static, V: Clone + Send + Sync + 'static> EntrySelector<'_, K, V> {
        pub fn or_insert_with(self, init: impl FnOnce() -> V) -> Entry<K, V> {
            let _g = self.cache.inner.1.lock().unwrap();
            let key = Arc::new(self.key);
            if let Some(value) = self.cache.inner.0.get(&*key) {
                return Entry { key: Some(key), value, fresh: false, replaced: false };
            }
            let value = init();
            self.cache.inner.0.insert(key.clone(), value.clone());
            Entry { key: Some(key), value, fresh: true, replaced: false }
        }
        pub fn or_insert(self, v: V) -> Entry<K, V> {
            self.or_insert_with(|| v)
        }
        pub fn or_default(self) -> Entry<K, V>
        where
            V: Default,
        {
            self.or_insert_with(V::default)
        }
    }
}
