//! Externalities: thread-local state with nested transactions and O(1) snapshots.
use std::any::Any;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

pub type Bytes = Vec<u8>;
pub type Map = BTreeMap<Bytes, Bytes>;

/// The consensus state (rolled back with transactions).
#[derive(Clone, Default)]
pub struct State {
	pub top: Rc<Map>,
	pub child: Rc<BTreeMap<Bytes, Map>>,
	/// offchain-index writes of the current block (`None` = cleared)
	pub index: Rc<BTreeMap<Bytes, Option<Bytes>>>,
	pub events: Rc<Vec<Rc<dyn Any>>>,
}
/// Node-local state (not rolled back).
#[derive(Clone, Default)]
pub struct Local {
	pub offchain: Rc<Map>,
	pub now_ms: u64,
}
#[derive(Clone, Default)]
pub struct Snapshot {
	pub state: State,
	pub local: Local,
}
pub type HttpHandler = Rc<dyn Fn(&str, &[u8]) -> Result<(u16, Vec<u8>), ()>>;
#[derive(Default)]
struct Ext {
	state: State,
	local: Local,
	stack: Vec<State>,
	http: Option<HttpHandler>,
	/// node-local writes still to happen before the node dies
	fuse: Option<u64>,
	dead: bool,
}
thread_local! {
	static EXT: RefCell<Ext> = RefCell::new(Ext::default());
}
fn with<R>(f: impl FnOnce(&mut Ext) -> R) -> R {
	EXT.with(|e| f(&mut e.borrow_mut()))
}
pub fn snapshot() -> Snapshot {
	with(|e| {
		assert!(e.stack.is_empty(), "snapshot inside a transaction");
		Snapshot { state: e.state.clone(), local: e.local.clone() }
	})
}
pub fn restore(s: &Snapshot) {
	with(|e| {
		e.stack.clear();
		e.state = s.state.clone();
		e.local = s.local.clone();
	})
}
pub fn reset() {
	with(|e| *e = Ext { http: e.http.take(), ..Default::default() })
}
pub fn get(k: &[u8]) -> Option<Bytes> {
	with(|e| e.state.top.get(k).cloned())
}
pub fn exists(k: &[u8]) -> bool {
	with(|e| e.state.top.contains_key(k))
}
pub fn put(k: &[u8], v: Bytes) {
	with(|e| {
		Rc::make_mut(&mut e.state.top).insert(k.to_vec(), v);
	})
}
pub fn kill(k: &[u8]) {
	with(|e| {
		if e.state.top.contains_key(k) {
			Rc::make_mut(&mut e.state.top).remove(k);
		}
	})
}
pub fn next_key(k: &[u8]) -> Option<Bytes> {
	use std::ops::Bound::*;
	with(|e| e.state.top.range::<[u8], _>((Excluded(k), Unbounded)).next().map(|x| x.0.clone()))
}
pub fn keys_with_prefix(p: &[u8]) -> Vec<Bytes> {
	use std::ops::Bound::*;
	with(|e| e.state.top.range::<[u8], _>((Included(p), Unbounded)).take_while(|x| x.0.starts_with(p)).map(|x| x.0.clone()).collect())
}
pub fn child_get(c: &[u8], k: &[u8]) -> Option<Bytes> {
	with(|e| e.state.child.get(c).and_then(|m| m.get(k).cloned()))
}
pub fn child_put(c: &[u8], k: &[u8], v: Bytes) {
	with(|e| {
		Rc::make_mut(&mut e.state.child).entry(c.to_vec()).or_default().insert(k.to_vec(), v);
	})
}
pub fn child_kill(c: &[u8], k: &[u8]) {
	with(|e| {
		let m = Rc::make_mut(&mut e.state.child);
		if let Some(t) = m.get_mut(c) {
			t.remove(k);
			if t.is_empty() {
				m.remove(c);
			}
		}
	})
}
pub fn child_clear(c: &[u8]) -> u32 {
	with(|e| Rc::make_mut(&mut e.state.child).remove(c).map(|m| m.len() as u32).unwrap_or(0))
}
pub fn child_clear_prefix(c: &[u8], p: &[u8]) -> u32 {
	let ks = child_keys_with_prefix(c, p);
	for k in &ks {
		child_kill(c, k)
	}
	ks.len() as u32
}
pub fn child_keys_with_prefix(c: &[u8], p: &[u8]) -> Vec<Bytes> {
	use std::ops::Bound::*;
	with(|e| match e.state.child.get(c) {
		None => vec![],
		Some(m) => m.range::<[u8], _>((Included(p), Unbounded)).take_while(|x| x.0.starts_with(p)).map(|x| x.0.clone()).collect(),
	})
}
pub fn child_next_key(c: &[u8], k: &[u8]) -> Option<Bytes> {
	use std::ops::Bound::*;
	with(|e| e.state.child.get(c).and_then(|m| m.range::<[u8], _>((Excluded(k), Unbounded)).next().map(|x| x.0.clone())))
}
pub fn deposit(ev: Rc<dyn Any>) {
	with(|e| Rc::make_mut(&mut e.state.events).push(ev))
}
pub fn events() -> Vec<Rc<dyn Any>> {
	with(|e| e.state.events.to_vec())
}
pub fn clear_events() {
	with(|e| e.state.events = Rc::default())
}
pub fn start_transaction() {
	with(|e| {
		let s = e.state.clone();
		e.stack.push(s)
	})
}
pub fn commit_transaction() {
	with(|e| {
		e.stack.pop().expect("transaction");
	})
}
pub fn rollback_transaction() {
	with(|e| e.state = e.stack.pop().expect("transaction"))
}
pub fn transaction_depth() -> usize {
	with(|e| e.stack.len())
}
/// After a panic: drop the open transactions, keeping the outermost state.
pub fn unwind() {
	with(|e| {
		if !e.stack.is_empty() {
			e.state = e.stack.swap_remove(0);
			e.stack.clear();
		}
	})
}
pub fn index_set(k: &[u8], v: &[u8]) {
	with(|e| {
		Rc::make_mut(&mut e.state.index).insert(k.to_vec(), Some(v.to_vec()));
	})
}
pub fn index_clear(k: &[u8]) {
	with(|e| {
		Rc::make_mut(&mut e.state.index).insert(k.to_vec(), None);
	})
}
/// Import of the block: its offchain-index writes reach the node's offchain database.
pub fn persist_index() {
	with(|e| {
		let idx = std::mem::take(&mut e.state.index);
		let m = Rc::make_mut(&mut e.local.offchain);
		for (k, v) in idx.iter() {
			match v {
				Some(v) => {
					m.insert(k.clone(), v.clone());
				},
				None => {
					m.remove(k);
				},
			}
		}
	})
}
pub fn local_get(k: &[u8]) -> Option<Bytes> {
	with(|e| e.local.offchain.get(k).cloned())
}
/// The node dies (panics) instead of its (n+1)-th node-local write, and writes nothing from then on until the fuse is replaced.
pub fn local_fuse(n: Option<u64>) {
	with(|e| {
		e.fuse = n;
		e.dead = false;
	})
}
fn local_write(f: impl FnOnce(&mut Map)) {
	let die = with(|e| {
		if e.dead {
			return false;
		}
		match &mut e.fuse {
			Some(0) => {
				e.dead = true;
				return true;
			},
			Some(n) => *n -= 1,
			None => {},
		}
		f(Rc::make_mut(&mut e.local.offchain));
		false
	});
	if die {
		panic!("the node died");
	}
}
pub fn local_set(k: &[u8], v: Bytes) {
	local_write(|m| {
		m.insert(k.to_vec(), v);
	})
}
pub fn local_clear(k: &[u8]) {
	local_write(|m| {
		m.remove(k);
	})
}
pub fn local_keys_with_prefix(p: &[u8]) -> Vec<Bytes> {
	with(|e| e.local.offchain.keys().filter(|k| k.starts_with(p)).cloned().collect())
}
pub fn now_ms() -> u64 {
	with(|e| e.local.now_ms)
}
pub fn set_now_ms(t: u64) {
	with(|e| e.local.now_ms = t)
}
pub fn set_http(h: Option<HttpHandler>) {
	with(|e| e.http = h)
}
pub fn http() -> Option<HttpHandler> {
	with(|e| e.http.clone())
}
/// A digest of the whole consensus state but the events (to detect any change).
pub fn state_digest() -> Vec<u8> {
	with(|e| {
		let mut buf = vec![];
		let mut w = |b: &[u8]| {
			buf.extend_from_slice(&(b.len() as u32).to_le_bytes());
			buf.extend_from_slice(b);
		};
		for (k, v) in e.state.top.iter() {
			w(k);
			w(v)
		}
		for (c, m) in e.state.child.iter() {
			w(c);
			for (k, v) in m {
				w(k);
				w(v)
			}
		}
		for (k, v) in e.state.index.iter() {
			w(k);
			w(v.as_deref().unwrap_or(&[]))
		}
		crate::hashing::blake2_256(&buf).to_vec()
	})
}
/// Number of entries of all child storages.
pub fn child_total() -> usize {
	with(|e| e.state.child.values().map(|m| m.len()).sum())
}
