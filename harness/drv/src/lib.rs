//! Generic conformance driver: replays specification edges into the real code (binding 1) and
//! records histories of the real code for the specification to judge (binding 2).
pub use serde_json::{json, Map, Value};
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Rng(pub u64);
impl Rng {
	pub fn new(seed: u64) -> Self {
		let mut r = Rng(seed ^ 0x9E3779B97F4A7C15);
		r.next();
		r
	}
	pub fn next(&mut self) -> u64 {
		self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
		let mut z = self.0;
		z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
		z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
		z ^ (z >> 31)
	}
	/// uniform in 0..n
	pub fn below(&mut self, n: u64) -> u64 {
		if n == 0 {
			0
		} else {
			self.next() % n
		}
	}
	/// uniform in a..=b
	pub fn range(&mut self, a: i64, b: i64) -> i64 {
		a + self.below((b - a + 1).max(1) as u64) as i64
	}
	pub fn chance(&mut self, pct: u64) -> bool {
		self.below(100) < pct
	}
	pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
		&xs[self.below(xs.len() as u64) as usize]
	}
	/// weighted choice of an index
	pub fn weighted(&mut self, ws: &[u64]) -> usize {
		let tot: u64 = ws.iter().sum();
		let mut x = self.below(tot);
		for (i, w) in ws.iter().enumerate() {
			if x < *w {
				return i;
			}
			x -= w;
		}
		ws.len() - 1
	}
}

pub trait Sut {
	/// driver-side state saved with a snapshot
	type Extra: Clone;
	/// build the initial state for a configuration
	fn init(&mut self, cfg: &Value);
	/// execute an action on the real code and return the observable result
	fn apply(&mut self, act: &Value) -> Value;
	/// the specification's view of the current state
	fn project(&mut self) -> Value;
	/// next random action of a history
	fn gen(&mut self, rng: &mut Rng) -> Value;
	fn save(&self) -> Self::Extra;
	fn load(&mut self, e: &Self::Extra);
}

/// Sort every array found under a key that ends in `_set`.
pub fn norm(v: &mut Value) {
	match v {
		Value::Array(a) => a.iter_mut().for_each(norm),
		Value::Object(m) => {
			for (k, x) in m.iter_mut() {
				norm(x);
				if k.ends_with("_set") {
					if let Value::Array(a) = x {
						a.sort_by_key(|e| e.to_string());
					}
				}
			}
		},
		_ => {},
	}
}
/// paths (dotted, depth <= 2) at which two values differ
pub fn diff(a: &Value, b: &Value) -> Vec<String> {
	let mut out = vec![];
	diff_at(a, b, "", 0, &mut out);
	out
}
fn diff_at(a: &Value, b: &Value, p: &str, d: usize, out: &mut Vec<String>) {
	if a == b {
		return;
	}
	if d < 3 {
		if let (Value::Object(x), Value::Object(y)) = (a, b) {
			let mut keys: Vec<&String> = x.keys().chain(y.keys()).collect();
			keys.sort();
			keys.dedup();
			for k in keys {
				let np = if p.is_empty() { k.clone() } else { format!("{p}.{k}") };
				diff_at(x.get(k).unwrap_or(&Value::Null), y.get(k).unwrap_or(&Value::Null), &np, d + 1, out);
			}
			return;
		}
	}
	out.push(p.to_string());
}
pub fn panic_msg(e: &Box<dyn std::any::Any + Send>) -> String {
	if let Some(s) = e.downcast_ref::<&str>() {
		s.to_string()
	} else if let Some(s) = e.downcast_ref::<String>() {
		s.clone()
	} else {
		"panic".into()
	}
}
static QUIET: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
fn quietly<R>(f: impl FnOnce() -> R) -> std::thread::Result<R> {
	QUIET.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
	let r = catch_unwind(AssertUnwindSafe(f));
	QUIET.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
	r
}
/// Panics of the code under test are answers; only others are printed.
fn hook() {
	std::panic::set_hook(Box::new(|i| {
		if QUIET.load(std::sync::atomic::Ordering::SeqCst) == 0 {
			eprintln!("driver: {i}");
		}
	}));
}
/// Apply with panics turned into the result class "panic" (state rolled back).
pub fn guarded<S: Sut>(s: &mut S, act: &Value) -> Value {
	let snap = mini::ext::snapshot();
	let extra = s.save();
	if std::env::var("DRV_NOTE").is_ok() {
		note(act);
	}
	let mut r = match quietly(|| s.apply(act)) {
		Ok(v) => v,
		Err(e) => {
			mini::ext::unwind();
			mini::ext::restore(&snap);
			s.load(&extra);
			if std::env::var("DRV_TRACE").is_ok() {
				eprintln!("panic: {}", panic_msg(&e));
			}
			json!({"r": "panic"})
		},
	};
	norm(&mut r);
	r
}
/// Leaves the action about to run where the runner finds it if the process dies.
fn note(act: &Value) {
	if let Ok(p) = std::env::var("DRV_LAST") {
		let _ = std::fs::write(p, json!({"a": act}).to_string());
	}
}
fn proj<S: Sut>(s: &mut S) -> Value {
	let mut v = match quietly(|| s.project()) {
		Ok(v) => v,
		Err(e) => json!({"projection_panic": panic_msg(&e)}),
	};
	norm(&mut v);
	v
}

struct Args {
	m: HashMap<String, String>,
	cmd: String,
}
impl Args {
	fn parse() -> Self {
		let mut it = std::env::args().skip(1);
		let cmd = it.next().unwrap_or_default();
		let mut m = HashMap::new();
		while let Some(k) = it.next() {
			let k = k.trim_start_matches("--").to_string();
			let v = it.next().unwrap_or_default();
			m.insert(k, v);
		}
		Args { m, cmd }
	}
	fn get(&self, k: &str) -> Option<&str> {
		self.m.get(k).map(|s| s.as_str())
	}
	fn num(&self, k: &str, d: u64) -> u64 {
		self.get(k).and_then(|s| s.parse().ok()).unwrap_or(d)
	}
	fn cfg(&self) -> Value {
		match self.get("cfg") {
			Some(s) => serde_json::from_str(s).expect("cfg json"),
			None => json!({}),
		}
	}
}

/// Entry point of a driver binary.
pub fn main<S: Sut>(mut s: S) {
	let a = Args::parse();
	hook();
	// deep recursion in decoders must not overflow the main thread's stack
	let code = match a.cmd.as_str() {
		"replay" => replay(&mut s, &a),
		"record" => record(&mut s, &a),
		"run" => run(&mut s, &a),
		c => {
			eprintln!("unknown command {c}");
			2
		},
	};
	std::process::exit(code);
}

/// replay --edges FILE --out REPORT --cfg JSON --max N --filter JSON
/// Every line of FILE: {"f": pre-state, "a": action, "r": result, "t": post-state}.
fn replay<S: Sut>(s: &mut S, a: &Args) -> i32 {
	let cfg = a.cfg();
	let max_mis = a.num("max", 20) as usize;
	let f = std::fs::File::open(a.get("edges").expect("--edges")).expect("edges file");
	mini::ext::reset();
	s.init(&cfg);
	let p0 = proj(s);
	struct Node<E> {
		snap: mini::ext::Snapshot,
		extra: E,
		parent: usize,
		act: Value,
	}
	let mut nodes: Vec<Node<S::Extra>> =
		vec![Node { snap: mini::ext::snapshot(), extra: s.save(), parent: 0, act: Value::Null }];
	let mut ids: HashMap<String, usize> = HashMap::new();
	let mut first = true;
	let (mut edges, mut skipped) = (0u64, 0u64);
	let mut kinds: std::collections::BTreeMap<String, u64> = Default::default();
	let mut mism: Vec<Value> = vec![];
	for line in std::io::BufReader::new(f).lines() {
		let line = line.expect("read");
		// a line of TLC output: an edge is a printed (quoted) JSON string
		let mut e: Value = if line.starts_with("\"{") {
			let inner: String = serde_json::from_str(&line).expect("quoted edge");
			serde_json::from_str(&inner).expect("edge json")
		} else if line.starts_with('{') {
			serde_json::from_str(&line).expect("edge json")
		} else {
			continue;
		};
		norm(&mut e);
		let fk = e["f"].to_string();
		if first {
			first = false;
			if p0 != e["f"] {
				mism.push(json!({"kind": "init", "diff": diff(&e["f"], &p0), "spec": e["f"], "code": p0, "path": []}));
				break;
			}
			ids.insert(fk.clone(), 0);
		}
		let Some(&id) = ids.get(&fk) else {
			skipped += 1;
			continue;
		};
		mini::ext::restore(&nodes[id].snap);
		s.load(&nodes[id].extra.clone());
		let r = guarded(s, &e["a"]);
		let t = proj(s);
		edges += 1;
		*kinds.entry(format!("{}/{}", e["a"]["k"].as_str().unwrap_or("?"), e["r"]["r"].as_str().unwrap_or("?"))).or_default() += 1;
		let res_ok = r == e["r"];
		let st_ok = t == e["t"];
		if res_ok && st_ok {
			let tk = e["t"].to_string();
			if !ids.contains_key(&tk) {
				ids.insert(tk, nodes.len());
				nodes.push(Node { snap: mini::ext::snapshot(), extra: s.save(), parent: id, act: e["a"].clone() });
			}
		} else if mism.len() < max_mis {
			let mut path = vec![e["a"].clone()];
			let mut n = id;
			while n != 0 {
				path.push(nodes[n].act.clone());
				n = nodes[n].parent;
			}
			path.reverse();
			let mut d = vec![];
			if !res_ok {
				d.push("res".to_string());
			}
			d.extend(diff(&e["t"], &t));
			mism.push(json!({"kind": "edge", "act": e["a"], "diff": d, "pre": e["f"],
				"spec": {"r": e["r"], "t": e["t"]}, "code": {"r": r, "t": t}, "path": path}));
		}
	}
	let rep = json!({"edges": edges, "states": ids.len(), "skipped": skipped, "kinds": kinds, "mismatches": mism});
	std::fs::write(a.get("out").expect("--out"), rep.to_string()).expect("write");
	0
}

/// record --seed N --hist H --steps L --out FILE --cfg JSON
fn record<S: Sut>(s: &mut S, a: &Args) -> i32 {
	let cfg = a.cfg();
	let seed = a.num("seed", 1);
	let out = std::fs::File::create(a.get("out").expect("--out")).expect("out");
	let mut out = std::io::BufWriter::new(out);
	for h in 0..a.num("hist", 10) {
		let mut rng = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(h));
		mini::ext::reset();
		s.init(&cfg);
		let mut f = proj(s);
		for i in 0..a.num("steps", 50) {
			let mut act = s.gen(&mut rng);
			norm(&mut act);
			let r = guarded(s, &act);
			let t = proj(s);
			let l = json!({"h": h, "i": i, "f": f, "a": act, "r": r, "t": t});
			writeln!(out, "{l}").expect("write");
			f = t;
		}
	}
	out.flush().expect("flush");
	0
}

/// run --acts FILE --cfg JSON : prints the result and state after every action
fn run<S: Sut>(s: &mut S, a: &Args) -> i32 {
	let v: Value = serde_json::from_str(&std::fs::read_to_string(a.get("acts").expect("--acts")).expect("read")).expect("json");
	let acts = v["acts"].as_array().cloned().unwrap_or_default();
	let cfg = if v["cfg"].is_null() { a.cfg() } else { v["cfg"].clone() };
	mini::ext::reset();
	s.init(&cfg);
	println!("{}", json!({"init": proj(s)}));
	for act in acts {
		let r = guarded(s, &act);
		println!("{}", json!({"a": act, "r": r, "t": proj(s)}));
	}
	0
}

/// JSON lines in, the same lines with the answer under "out" out; panics are answers.
pub fn eval_lines(mut f: impl FnMut(&Value) -> Value) {
	hook();
	let out = std::io::stdout();
	let mut out = std::io::BufWriter::new(out.lock());
	for l in std::io::stdin().lock().lines() {
		let v: Value = serde_json::from_str(&l.expect("line")).expect("json");
		let mut o = v.clone();
		o["out"] = match quietly(|| f(&v)) {
			Ok(x) => x,
			Err(_) => {
				mini::ext::unwind();
				json!({"panic": true})
			},
		};
		writeln!(out, "{o}").expect("write");
		if std::env::var("EVAL_FLUSH").is_ok() {
			out.flush().expect("flush");
		}
	}
}

// ---- small helpers for drivers ----
pub fn st<'a>(v: &'a Value, k: &str) -> &'a str {
	v[k].as_str().unwrap_or_else(|| panic!("driver: field {k} missing in {v}"))
}
pub fn int(v: &Value, k: &str) -> i64 {
	v[k].as_i64().unwrap_or_else(|| panic!("driver: field {k} missing in {v}"))
}
pub fn boolean(v: &Value, k: &str) -> bool {
	v[k].as_bool().unwrap_or_else(|| panic!("driver: field {k} missing in {v}"))
}
pub fn ok() -> Value {
	json!({"r": "ok"})
}
pub fn err() -> Value {
	json!({"r": "err"})
}
pub fn class<T, E>(r: &Result<T, E>) -> Value {
	if r.is_ok() {
		ok()
	} else {
		err()
	}
}
