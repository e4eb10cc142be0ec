//! Stand-in for `moka` with the documented semantics the service relies on: per-key coalescing of
//! initialisation (with takeover when the initialising future panics or is dropped), time-to-live,
//! time-to-idle and per-entry expiry measured on `std::time::Instant`, weight-bounded capacity,
//! and per-key serialised compute.
//!
//! `chaos` makes a cache drop arbitrary entries on insertion, which the real one is free to do.
use std::borrow::Borrow;
use std::collections::HashMap;
use std::hash::Hash;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub mod chaos {
    use std::sync::atomic::{AtomicU64, Ordering};
    static STATE: AtomicU64 = AtomicU64::new(0);
    static PERMILLE: AtomicU64 = AtomicU64::new(0);
    pub static EVICTED: AtomicU64 = AtomicU64::new(0);
    pub fn set(seed: u64, permille: u64) { STATE.store(seed | 1, Ordering::SeqCst); PERMILLE.store(permille, Ordering::SeqCst); }
    pub(crate) fn draw() -> Option<u64> {
        let p = PERMILLE.load(Ordering::SeqCst);
        if p == 0 { return None }
        let mut x = STATE.load(Ordering::SeqCst);
        x ^= x << 13; x ^= x >> 7; x ^= x << 17;
        STATE.store(x, Ordering::SeqCst);
        let r = x.wrapping_mul(0x2545F4914F6CDD1D) >> 11;
        if r % 1000 < p { EVICTED.fetch_add(1, Ordering::SeqCst); Some(r / 1000) } else { None }
    }
}

pub trait Expiry<K, V> {
    #[allow(unused_variables)]
    fn expire_after_create(&self, key: &K, value: &V, created_at: Instant) -> Option<Duration> { None }
    #[allow(unused_variables)]
    fn expire_after_read(&self, key: &K, value: &V, read_at: Instant, duration_until_expiry: Option<Duration>, last_modified_at: Instant) -> Option<Duration> { duration_until_expiry }
    #[allow(unused_variables)]
    fn expire_after_update(&self, key: &K, value: &V, updated_at: Instant, duration_until_expiry: Option<Duration>) -> Option<Duration> { duration_until_expiry }
}

pub mod notification {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum RemovalCause { Expired, Explicit, Replaced, Size }
}
use notification::RemovalCause;

pub mod ops { pub mod compute {
    #[derive(Debug)]
    pub enum Op<V> { Nop, Put(V), Remove }
    #[derive(Debug)]
    pub enum CompResult<K, V> { Inserted(crate::Entry<K, V>), ReplacedWith(crate::Entry<K, V>), Removed(crate::Entry<K, V>), Unchanged(crate::Entry<K, V>), StillNone(std::sync::Arc<K>) }
    impl<K, V> CompResult<K, V> {
        pub fn into_entry(self) -> Option<crate::Entry<K, V>> { match self { Self::Inserted(e) | Self::ReplacedWith(e) | Self::Removed(e) | Self::Unchanged(e) => Some(e), _ => None } }
        pub fn unwrap(self) -> crate::Entry<K, V> { match self { Self::StillNone(_) => panic!("`CompResult::unwrap` called on `StillNone`"), o => o.into_entry().unwrap() } }
    }
} }

#[derive(Debug)]
pub struct Entry<K, V> { key: Option<K>, value: V, fresh: bool, replaced: bool }
impl<K, V> Entry<K, V> {
    pub fn key(&self) -> &K { self.key.as_ref().unwrap() }
    pub fn value(&self) -> &V { &self.value }
    pub fn into_value(self) -> V { self.value }
    pub fn is_fresh(&self) -> bool { self.fresh }
    pub fn is_old_value_replaced(&self) -> bool { self.replaced }
}

struct Slot<V> { value: V, weight: u32, created: Instant, accessed: Instant, modified: Instant, expires: Option<Instant>, seq: u64 }
struct State<K, V> { map: HashMap<K, Slot<V>, BuildH>, order: std::collections::BTreeMap<u64, K>, seq: u64, weight: u64 }
type BuildH = std::hash::BuildHasherDefault<std::collections::hash_map::DefaultHasher>;
type Listener<K, V> = Box<dyn Fn(Arc<K>, V, RemovalCause) + Send + Sync>;

struct Core<K, V> {
    name: Option<String>, cap: Option<u64>, ttl: Option<Duration>, tti: Option<Duration>,
    expiry: Option<Box<dyn Expiry<K, V> + Send + Sync>>, weigher: Option<Box<dyn Fn(&K, &V) -> u32 + Send + Sync>>, listener: Option<Listener<K, V>>,
    state: Mutex<State<K, V>>, inits: Mutex<HashMap<K, Arc<Init<V>>, BuildH>>,
}
/// One initialisation that is under way. Those waiting for it share its value, also when the entry is
/// evicted or expires right away.
struct Init<V> { lock: Arc<tokio::sync::Mutex<()>>, val: Mutex<Option<V>> }

impl<K: Hash + Eq + Clone, V: Clone> Core<K, V> {
    fn expired(&self, s: &Slot<V>, now: Instant) -> bool {
        s.expires.is_some_and(|e| e <= now)
            || self.ttl.is_some_and(|t| s.modified.checked_add(t).is_some_and(|e| e <= now))
            || self.tti.is_some_and(|t| s.accessed.checked_add(t).is_some_and(|e| e <= now))
    }
    fn notify(&self, gone: Vec<(K, V, RemovalCause)>) { if let Some(l) = &self.listener { for (k, v, c) in gone { l(Arc::new(k), v, c) } } }
    fn purge(&self, st: &mut State<K, V>, now: Instant, gone: &mut Vec<(K, V, RemovalCause)>) {
        let dead: Vec<u64> = st.order.iter().filter(|(_, k)| self.expired(&st.map[*k], now)).map(|(s, _)| *s).collect();
        for s in dead { let k = st.order.remove(&s).unwrap(); let slot = st.map.remove(&k).unwrap(); st.weight -= slot.weight as u64; gone.push((k, slot.value, RemovalCause::Expired)) }
    }
    fn lookup<Q: Hash + Eq + ?Sized>(&self, key: &Q, touch: bool) -> Option<V> where K: Borrow<Q> {
        let now = Instant::now();
        let mut gone = vec![];
        let out = {
            let mut st = self.state.lock().unwrap();
            let st = &mut *st;
            match st.map.get_mut(key) {
                Some(s) if !self.expired(s, now) => {
                    if touch { s.accessed = now; st.seq += 1; let k = st.order.remove(&s.seq).unwrap(); s.seq = st.seq; st.order.insert(s.seq, k); }
                    Some(s.value.clone())
                }
                Some(_) => { self.purge(st, now, &mut gone); None }
                None => None,
            }
        };
        self.notify(gone);
        out
    }
    fn put(&self, key: K, value: V) {
        let now = Instant::now();
        let mut gone = vec![];
        {
            let mut st = self.state.lock().unwrap();
            let st = &mut *st;
            self.purge(st, now, &mut gone);
            let weight = self.weigher.as_ref().map_or(1, |w| w(&key, &value));
            st.seq += 1;
            let seq = st.seq;
            let old = st.map.remove(&key);
            let expires = match (&self.expiry, &old) {
                (None, _) => None,
                (Some(e), None) => e.expire_after_create(&key, &value, now).and_then(|d| now.checked_add(d)),
                (Some(e), Some(o)) => { let left = o.expires.map(|x| x.saturating_duration_since(now)); e.expire_after_update(&key, &value, now, left).and_then(|d| now.checked_add(d)) }
            };
            let created = old.as_ref().map_or(now, |o| o.created);
            if let Some(o) = old { st.order.remove(&o.seq); st.weight -= o.weight as u64; gone.push((key.clone(), o.value, RemovalCause::Replaced)) }
            if self.cap.is_some_and(|c| weight as u64 > c) {
                gone.push((key, value, RemovalCause::Size));
            } else {
                st.map.insert(key.clone(), Slot { value, weight, created, accessed: now, modified: now, expires, seq });
                st.order.insert(seq, key);
                st.weight += weight as u64;
                while self.cap.is_some_and(|c| st.weight > c) {
                    let s = *st.order.keys().next().unwrap();
                    let k = st.order.remove(&s).unwrap(); let slot = st.map.remove(&k).unwrap(); st.weight -= slot.weight as u64;
                    gone.push((k, slot.value, RemovalCause::Size));
                }
                if self.expiry.is_some() && st.order.len() > 1 { if let Some(r) = chaos::draw() {
                    let s = *st.order.keys().nth(r as usize % st.order.len()).unwrap();
                    let k = st.order.remove(&s).unwrap(); let slot = st.map.remove(&k).unwrap(); st.weight -= slot.weight as u64;
                    gone.push((k, slot.value, RemovalCause::Size));
                } }
            }
        }
        self.notify(gone);
    }
    fn del<Q: Hash + Eq + ?Sized>(&self, key: &Q) -> Option<V> where K: Borrow<Q> {
        let mut st = self.state.lock().unwrap();
        let s = st.map.remove(key)?; st.order.remove(&s.seq); st.weight -= s.weight as u64; Some(s.value)
    }
    fn init_lock(&self, key: &K) -> Arc<Init<V>> {
        self.inits.lock().unwrap().entry(key.clone()).or_insert_with(|| Arc::new(Init { lock: Default::default(), val: Mutex::new(None) })).clone()
    }
    /// The initialisation is complete: whoever comes now starts anew.
    fn init_ready(&self, key: &K, m: &Arc<Init<V>>, v: &V) {
        *m.val.lock().unwrap() = Some(v.clone());
        let mut i = self.inits.lock().unwrap();
        if i.get(key).is_some_and(|x| Arc::ptr_eq(x, m)) { i.remove(key); }
    }
    fn init_done(&self, key: &K, m: Arc<Init<V>>) {
        let mut i = self.inits.lock().unwrap();
        if i.get(key).is_some_and(|x| Arc::ptr_eq(x, &m)) && Arc::strong_count(&m) == 2 { i.remove(key); }
        drop(m);
    }
}

pub struct Builder<K, V> { core: Core<K, V> }
macro_rules! builder { ($cache:ident) => {
    pub struct CacheBuilder<K, V>(Core<K, V>);
    impl<K: Hash + Eq + Clone + Send + Sync + 'static, V: Clone + Send + Sync + 'static> CacheBuilder<K, V> {
        pub fn name(mut self, n: &str) -> Self { self.0.name = Some(n.into()); self }
        pub fn max_capacity(mut self, n: u64) -> Self { self.0.cap = Some(n); self }
        pub fn time_to_live(mut self, d: Duration) -> Self { self.0.ttl = Some(d); self }
        pub fn time_to_idle(mut self, d: Duration) -> Self { self.0.tti = Some(d); self }
        pub fn expire_after(mut self, e: impl Expiry<K, V> + Send + Sync + 'static) -> Self { self.0.expiry = Some(Box::new(e)); self }
        pub fn weigher(mut self, w: impl Fn(&K, &V) -> u32 + Send + Sync + 'static) -> Self { self.0.weigher = Some(Box::new(w)); self }
        pub fn eviction_listener(mut self, l: impl Fn(Arc<K>, V, RemovalCause) + Send + Sync + 'static) -> Self { self.0.listener = Some(Box::new(l)); self }
        pub fn build(self) -> Cache<K, V> { Cache(Arc::new(self.0)) }
    }
    pub struct Cache<K, V>(Arc<Core<K, V>>);
    impl<K, V> Clone for Cache<K, V> { fn clone(&self) -> Self { Cache(self.0.clone()) } }
    impl<K, V> std::fmt::Debug for Cache<K, V> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Cache") } }
    impl<K: Hash + Eq + Clone + Send + Sync + 'static, V: Clone + Send + Sync + 'static> Cache<K, V> {
        pub fn builder() -> CacheBuilder<K, V> { CacheBuilder(Core { name: None, cap: None, ttl: None, tti: None, expiry: None, weigher: None, listener: None, state: Mutex::new(State { map: HashMap::default(), order: Default::default(), seq: 0, weight: 0 }), inits: Default::default() }) }
        pub fn new(cap: u64) -> Self { Self::builder().max_capacity(cap).build() }
        pub fn entry_count(&self) -> u64 { self.0.state.lock().unwrap().map.len() as u64 }
        pub fn weighted_size(&self) -> u64 { self.0.state.lock().unwrap().weight }
        pub fn name(&self) -> Option<&str> { self.0.name.as_deref() }
        pub fn contains_key<Q: Hash + Eq + ?Sized>(&self, k: &Q) -> bool where K: Borrow<Q> { self.0.lookup(k, false).is_some() }
        pub fn entry_by_ref<'a, Q: ToOwned<Owned = K> + Hash + Eq + ?Sized>(&'a self, k: &'a Q) -> RefKeyEntrySelector<'a, K, V> where K: Borrow<Q> { RefKeyEntrySelector { key: k.to_owned(), core: &self.0 } }
        pub fn entry(&self, k: K) -> RefKeyEntrySelector<'_, K, V> { RefKeyEntrySelector { key: k, core: &self.0 } }
    }
    pub struct RefKeyEntrySelector<'a, K, V> { key: K, core: &'a Core<K, V> }
} }

pub mod sync {
    use super::*;
    builder!(Cache);
    impl<K: Hash + Eq + Clone + Send + Sync + 'static, V: Clone + Send + Sync + 'static> Cache<K, V> {
        pub fn get<Q: Hash + Eq + ?Sized>(&self, k: &Q) -> Option<V> where K: Borrow<Q> { self.0.lookup(k, true) }
        pub fn insert(&self, k: K, v: V) { self.0.put(k, v) }
        pub fn invalidate<Q: Hash + Eq + ?Sized>(&self, k: &Q) where K: Borrow<Q> { self.0.del(k); }
        pub fn remove<Q: Hash + Eq + ?Sized>(&self, k: &Q) -> Option<V> where K: Borrow<Q> { self.0.del(k) }
        pub fn run_pending_tasks(&self) {}
        pub fn get_with(&self, k: K, init: impl FnOnce() -> V) -> V { self.entry(k).or_insert_with(init).into_value() }
    }
    impl<K: Hash + Eq + Clone, V: Clone> RefKeyEntrySelector<'_, K, V> {
        pub fn or_default(self) -> Entry<K, V> where V: Default { self.or_insert_with(V::default) }
        pub fn or_insert(self, v: V) -> Entry<K, V> { self.or_insert_with(|| v) }
        pub fn or_insert_with(self, init: impl FnOnce() -> V) -> Entry<K, V> {
            if let Some(v) = self.core.lookup(&self.key, true) { return Entry { key: Some(self.key), value: v, fresh: false, replaced: false } }
            let m = self.core.init_lock(&self.key);
            let r = loop { match m.lock.try_lock() { Ok(g) => break g, Err(_) => std::thread::yield_now() } };
            let shared = m.val.lock().unwrap().clone();
            let e = match shared.or_else(|| self.core.lookup(&self.key, true)) {
                Some(v) => Entry { key: Some(self.key.clone()), value: v, fresh: false, replaced: false },
                None => { let v = init(); self.core.put(self.key.clone(), v.clone()); self.core.init_ready(&self.key, &m, &v); Entry { key: Some(self.key.clone()), value: v, fresh: true, replaced: false } }
            };
            drop(r);
            self.core.init_done(&self.key, m);
            e
        }
    }
}

pub mod future {
    use super::*;
    use crate::ops::compute::{CompResult, Op};
    use std::future::Future;
    builder!(Cache);
    impl<K: Hash + Eq + Clone + Send + Sync + 'static, V: Clone + Send + Sync + 'static> Cache<K, V> {
        pub async fn get<Q: Hash + Eq + ?Sized>(&self, k: &Q) -> Option<V> where K: Borrow<Q> { self.0.lookup(k, true) }
        pub async fn insert(&self, k: K, v: V) { self.0.put(k, v) }
        pub async fn invalidate<Q: Hash + Eq + ?Sized>(&self, k: &Q) where K: Borrow<Q> { self.0.del(k); }
        pub async fn remove<Q: Hash + Eq + ?Sized>(&self, k: &Q) -> Option<V> where K: Borrow<Q> { self.0.del(k) }
        pub async fn run_pending_tasks(&self) {}
        pub async fn get_with(&self, k: K, init: impl Future<Output = V>) -> V { self.entry(k).or_insert_with(init).await.into_value() }
        pub async fn get_with_by_ref<Q: ToOwned<Owned = K> + Hash + Eq + ?Sized>(&self, k: &Q, init: impl Future<Output = V>) -> V where K: Borrow<Q> { self.entry_by_ref(k).or_insert_with(init).await.into_value() }
        pub async fn try_get_with<E: Clone + Send + Sync + 'static>(&self, k: K, init: impl Future<Output = Result<V, E>>) -> Result<V, Arc<E>> { Ok(self.entry(k).or_try_insert_with(init).await?.into_value()) }
    }
    struct Cleanup<'a, K: Hash + Eq + Clone, V: Clone>(&'a Core<K, V>, &'a K, Option<Arc<Init<V>>>);
    impl<K: Hash + Eq + Clone, V: Clone> Drop for Cleanup<'_, K, V> { fn drop(&mut self) { if let Some(m) = self.2.take() { self.0.init_done(self.1, m) } } }
    impl<K: Hash + Eq + Clone, V: Clone> RefKeyEntrySelector<'_, K, V> {
        pub async fn or_insert_with(self, init: impl Future<Output = V>) -> Entry<K, V> { self.or_insert_with_if(init, |_| false).await }
        pub async fn or_insert(self, v: V) -> Entry<K, V> { self.or_insert_with(async { v }).await }
        pub async fn or_default(self) -> Entry<K, V> where V: Default { self.or_insert_with(async { V::default() }).await }
        pub async fn or_try_insert_with<E: Clone + Send + Sync + 'static>(self, init: impl Future<Output = Result<V, E>>) -> Result<Entry<K, V>, Arc<E>> {
            if let Some(v) = self.core.lookup(&self.key, true) { return Ok(Entry { key: Some(self.key), value: v, fresh: false, replaced: false }) }
            let m = self.core.init_lock(&self.key);
            let _c = Cleanup(self.core, &self.key, Some(m.clone()));
            let _g = m.lock.clone().lock_owned().await;
            let shared = m.val.lock().unwrap().clone();
            if let Some(v) = shared.or_else(|| self.core.lookup(&self.key, true)) { return Ok(Entry { key: Some(self.key.clone()), value: v, fresh: false, replaced: false }) }
            let v = init.await.map_err(Arc::new)?;
            self.core.put(self.key.clone(), v.clone());
            self.core.init_ready(&self.key, &m, &v);
            Ok(Entry { key: Some(self.key.clone()), value: v, fresh: true, replaced: false })
        }
        pub async fn or_insert_with_if(self, init: impl Future<Output = V>, mut replace_if: impl FnMut(&V) -> bool) -> Entry<K, V> {
            if let Some(v) = self.core.lookup(&self.key, true) { if !replace_if(&v) { return Entry { key: Some(self.key), value: v, fresh: false, replaced: false } } }
            let m = self.core.init_lock(&self.key);
            let _c = Cleanup(self.core, &self.key, Some(m.clone()));
            let _g = m.lock.clone().lock_owned().await;
            let shared = m.val.lock().unwrap().clone();
            if let Some(v) = shared { return Entry { key: Some(self.key.clone()), value: v, fresh: false, replaced: false } }
            let mut replaced = false;
            if let Some(v) = self.core.lookup(&self.key, true) { if !replace_if(&v) { return Entry { key: Some(self.key.clone()), value: v, fresh: false, replaced: false } } replaced = true; }
            let v = init.await;
            self.core.put(self.key.clone(), v.clone());
            self.core.init_ready(&self.key, &m, &v);
            Entry { key: Some(self.key.clone()), value: v, fresh: true, replaced }
        }
        pub async fn and_compute_with<F, Fut>(self, f: F) -> CompResult<K, V> where F: FnOnce(Option<Entry<K, V>>) -> Fut, Fut: Future<Output = Op<V>> {
            let m = self.core.init_lock(&self.key);
            let _c = Cleanup(self.core, &self.key, Some(m.clone()));
            let _g = m.lock.clone().lock_owned().await;
            let old = self.core.lookup(&self.key, true);
            let e = |v: V, fresh, replaced| Entry { key: Some(self.key.clone()), value: v, fresh, replaced };
            let op = f(old.clone().map(|v| e(v, false, false))).await;
            match (op, old) {
                (Op::Nop, Some(v)) => CompResult::Unchanged(e(v, false, false)),
                (Op::Nop, None) => CompResult::StillNone(Arc::new(self.key.clone())),
                (Op::Put(v), old) => { self.core.put(self.key.clone(), v.clone()); if old.is_some() { CompResult::ReplacedWith(e(v, true, true)) } else { CompResult::Inserted(e(v, true, false)) } }
                (Op::Remove, Some(_)) => { let v = self.core.del(&self.key).unwrap(); CompResult::Removed(e(v, false, false)) }
                (Op::Remove, None) => CompResult::StillNone(Arc::new(self.key.clone())),
            }
        }
    }
}
