//! Conformance driver for spec/Pool.tla: the node service's RPC over a pool and two blocks the driver holds.
use cfgs::acc;
use common_primitives::rpc::RpcEvent;
use drv::*;
use frame_system::{EventRecord, Phase};
use node_rpc::frequency_rpc::{FrequencyRpcApiServer, FrequencyRpcHandler};
use parity_scale_codec::{Decode, Encode, Error, Input, Output};
use sc_transaction_pool_api::*;
use sp_api::{ApiError, ApiRef, ProvideRuntimeApi};
use sp_blockchain::{HeaderBackend, Info};
use std::sync::{Arc, Mutex};

type Block = sp_runtime::generic::Block<sp_runtime::generic::Header<u32, sp_runtime::traits::BlakeTwo256>, ()>;
type Hash = <Block as sp_runtime::traits::Block>::Hash;
type Acc = sp_runtime::AccountId32;

#[derive(Clone, Default)]
struct State {
	nonce: Vec<(String, u32)>,
	ready: Vec<(String, u32)>,
	fut: Vec<(String, u32)>,
	blocks: Vec<Value>,
}
/// An event as the runtime's outer event type encodes: pallet, variant, fields.
#[derive(Clone, Debug, PartialEq, Eq)]
struct Event(Vec<u8>);
impl Encode for Event {
	fn encode_to<O: Output + ?Sized>(&self, o: &mut O) {
		o.write(&self.0)
	}
}
impl Decode for Event {
	fn decode<I: Input>(_: &mut I) -> Result<Self, Error> {
		Err("not read back".into())
	}
}
impl parity_scale_codec::EncodeLike for Event {}
impl scale_info::TypeInfo for Event {
	type Identity = Self;
	fn type_info() -> scale_info::Type {
		unimplemented!()
	}
}

struct Tx(Vec<TransactionTag>, Hash);
impl InPoolTransaction for Tx {
	type Transaction = ();
	type Hash = Hash;
	fn data(&self) -> &() {
		&()
	}
	fn hash(&self) -> &Hash {
		&self.1
	}
	fn priority(&self) -> &TransactionPriority {
		&1
	}
	fn longevity(&self) -> &TransactionLongevity {
		&64
	}
	fn requires(&self) -> &[TransactionTag] {
		&[]
	}
	fn provides(&self) -> &[TransactionTag] {
		&self.0
	}
	fn is_propagable(&self) -> bool {
		true
	}
}
fn tx(i: usize, (w, n): &(String, u32)) -> Tx {
	let tags = if w == "x" {
		let mut t = acc("a").encode();
		match n {
			0 => vec![],
			1 => {
				t.extend([9, 9]);
				vec![t]
			},
			2 => vec![vec![1, 2, 3]],
			_ => vec![vec![5; 36], (acc("a"), n).encode()],
		}
	} else {
		vec![(acc(w), *n).encode()]
	};
	Tx(tags, Hash::from_low_u64_be(i as u64))
}
#[derive(Clone)]
struct Node(Arc<Mutex<State>>);
impl TransactionPool for Node {
	type Hash = Hash;
	type InPoolTransaction = Tx;
	fn ready(&self) -> Box<dyn ReadyTransactions<Item = Arc<Tx>> + Send> {
		let v: Vec<_> = self.0.lock().unwrap().ready.iter().enumerate().map(|(i, x)| Arc::new(tx(i, x))).collect();
		Box::new(v.into_iter())
	}
	fn futures(&self) -> Vec<Tx> {
		self.0.lock().unwrap().fut.iter().enumerate().map(|(i, x)| tx(1000 + i, x)).collect()
	}
	fn status(&self) -> PoolStatus {
		let s = self.0.lock().unwrap();
		PoolStatus { ready: s.ready.len(), ready_bytes: s.ready.len() * 100, future: s.fut.len(), future_bytes: s.fut.len() * 100 }
	}
	fn ready_transaction(&self, h: &Hash) -> Option<Arc<Tx>> {
		self.ready().find(|t| t.1 == *h)
	}
}
fn best() -> Hash {
	Hash::from_low_u64_be(2)
}
impl ProvideRuntimeApi<Block> for Node {
	type Api = Node;
	fn runtime_api(&self) -> ApiRef<Node> {
		self.clone().into()
	}
}
impl HeaderBackend<Block> for Node {
	fn info(&self) -> Info<Block> {
		Info { best_hash: best(), best_number: 2, finalized_hash: Hash::from_low_u64_be(1), finalized_number: 1 }
	}
}
impl substrate_frame_rpc_system::AccountNonceApi<Block, Acc, u32> for Node {
	fn account_nonce(&self, at: Hash, who: Acc) -> Result<u32, ApiError> {
		assert_eq!(at, best(), "the nonce is the best block's");
		Ok(self.0.lock().unwrap().nonce.iter().find(|(w, _)| acc(w) == who).map_or(0, |(_, n)| *n))
	}
}
impl system_runtime_api::AdditionalRuntimeApi<Block> for Node {
	fn get_events(&self, at: Hash) -> Result<Vec<RpcEvent>, ApiError> {
		let s = self.0.lock().unwrap();
		let b = (1..=s.blocks.len()).find(|i| Hash::from_low_u64_be(*i as u64) == at).ok_or(ApiError::StateBackendIsNotTrie)?;
		Ok(s.blocks[b - 1]
			.as_array()
			.unwrap()
			.iter()
			.map(|e| {
				let phase = match st(e, "phase") {
					"init" => Phase::Initialization,
					"fin" => Phase::Finalization,
					n => Phase::ApplyExtrinsic(n.parse().expect("driver: phase")),
				};
				let mut raw = vec![int(e, "pallet") as u8, int(e, "event") as u8];
				raw.extend(e["data"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8));
				EventRecord::<Event, Hash> { phase, event: Event(raw), topics: vec![] }.into()
			})
			.collect())
	}
}

struct D(Node);
impl D {
	fn rpc(&self) -> FrequencyRpcHandler<Node, Node, Block> {
		FrequencyRpcHandler::new(Arc::new(self.0.clone()), Arc::new(self.0.clone()))
	}
	fn missing(&self, w: &str) -> Vec<u32> {
		FrequencyRpcApiServer::<Block, Acc, u32>::get_missing_nonce_values(&self.rpc(), acc(w)).expect("answer")
	}
	fn accs(&self) -> Vec<String> {
		self.0 .0.lock().unwrap().nonce.iter().map(|(w, _)| w.clone()).collect()
	}
	fn due(s: &State, w: &str) -> u32 {
		let mut n = s.nonce.iter().find(|x| x.0 == w).unwrap().1;
		while s.ready.contains(&(w.to_string(), n)) {
			n += 1
		}
		n
	}
	fn wake(s: &mut State, w: &str) {
		loop {
			let x = (w.to_string(), Self::due(s, w));
			if !s.fut.contains(&x) {
				return
			}
			s.fut.retain(|y| *y != x);
			s.ready.push(x);
		}
	}
}
impl Sut for D {
	type Extra = State;
	fn init(&mut self, cfg: &Value) {
		let s = State { nonce: cfg["accs"].as_array().unwrap().iter().map(|a| (a.as_str().unwrap().to_string(), 0)).collect(), ..Default::default() };
		*self.0 .0.lock().unwrap() = s;
	}
	fn apply(&mut self, a: &Value) -> Value {
		let mut g = self.0 .0.lock().unwrap();
		let s = &mut *g;
		match st(a, "k") {
			"submit" => {
				let x = (st(a, "who").to_string(), int(a, "n") as u32);
				if s.nonce.iter().any(|(w, n)| *w == x.0 && x.1 < *n) || s.ready.contains(&x) {
					return json!({"r": "no"})
				}
				if Self::due(s, &x.0) == x.1 {
					s.ready.push(x.clone());
					Self::wake(s, &x.0);
				} else {
					s.fut.push(x)
				}
			},
			"other" => {
				let x = ("x".to_string(), int(a, "n") as u32);
				s.fut.push(x.clone());
				s.ready.push(x);
			},
			"ahead" => s.nonce.iter_mut().find(|x| x.0 == st(a, "who")).unwrap().1 += int(a, "n") as u32,
			"tidy" => {
				let old = s.nonce.clone();
				let live = |x: &(String, u32)| !old.iter().any(|(w, n)| *w == x.0 && x.1 < *n);
				s.ready.retain(live);
				s.fut.retain(live);
				for (w, _) in &old {
					Self::wake(s, w);
				}
			},
			"drop" => {
				let w = st(a, "who");
				let n = s.nonce.iter().find(|x| x.0 == w).unwrap().1;
				match s.ready.iter().filter(|x| x.0 == w && x.1 >= n).map(|x| x.1).max() {
					None => return json!({"r": "no"}),
					Some(m) => s.ready.retain(|x| *x != (w.to_string(), m)),
				}
			},
			"events" => {
				s.blocks = a["blocks"].as_array().unwrap().clone();
				drop(g);
				let at = Hash::from_low_u64_be(int(a, "at") as u64);
				return match FrequencyRpcApiServer::<Block, Acc, u32>::get_events(&self.rpc(), at) {
					Ok(l) => json!({"r": "ok", "list": l.iter().map(|e| json!({
						"phase": e.phase.map_or("none".to_string(), |p| p.to_string()), "pallet": e.pallet, "event": e.event, "data": e.data})).collect::<Vec<_>>()}),
					Err(_) => json!({"r": "err"}),
				}
			},
			k => panic!("driver: {k}"),
		}
		json!({"r": "ok"})
	}
	fn project(&mut self) -> Value {
		let accs = self.accs();
		let miss: Map<String, Value> = accs.iter().map(|w| (w.clone(), json!(self.missing(w)))).collect();
		let s = self.0 .0.lock().unwrap();
		json!({"nonce": s.nonce.iter().map(|(w, n)| (w.clone(), json!(n))).collect::<Map<String, Value>>(), "ready": s.ready, "fut": s.fut, "miss": miss})
	}
	fn gen(&mut self, rng: &mut Rng) -> Value {
		let accs = self.accs();
		let w = rng.pick(&accs).clone();
		let s = self.0 .0.lock().unwrap().clone();
		let n = s.nonce.iter().find(|x| x.0 == w).unwrap().1 as i64;
		let due = Self::due(&s, &w) as i64;
		match rng.weighted(&[40, 10, 6, 8, 6, 5]) {
			0 => {
				let to = match rng.below(12) {
					0 => n + rng.range(-2, 3),
					1 => due + rng.range(990, 1010),
					2 => due + rng.range(0, 2500),
					3..=5 => s.fut.iter().filter(|x| x.0 == w).last().map_or(due, |x| x.1 as i64),
					6 | 7 => due,
					_ => due + rng.range(0, 12),
				};
				json!({"k": "submit", "who": w, "n": to.max(0)})
			},
			1 => json!({"k": "ahead", "who": w, "n": if rng.chance(8) { rng.range(100, 2000) } else { rng.range(1, 6) }}),
			2 => json!({"k": "other", "n": rng.below(5)}),
			3 => json!({"k": "tidy"}),
			4 => json!({"k": "drop", "who": w}),
			_ => {
				let block = |rng: &mut Rng| -> Vec<Value> {
					(0..rng.below(5))
						.map(|_| {
							let phase = match rng.below(6) {
								0 => "init".to_string(),
								1 => "fin".to_string(),
								2 => (*rng.pick(&[255u64, 256, 65535, 65536, 4_294_967_295])).to_string(),
								_ => rng.below(9).to_string(),
							};
							json!({"phase": phase, "pallet": rng.below(256), "event": rng.below(256), "data": (0..rng.below(6)).map(|_| rng.below(256)).collect::<Vec<_>>()})
						})
						.collect()
				};
				json!({"k": "events", "at": rng.range(1, 2), "blocks": [block(rng), block(rng)]})
			},
		}
	}
	fn save(&self) -> State {
		self.0 .0.lock().unwrap().clone()
	}
	fn load(&mut self, e: &State) {
		*self.0 .0.lock().unwrap() = e.clone();
	}
}
fn main() {
	drv::main(D(Node(Arc::new(Mutex::new(State::default())))))
}
