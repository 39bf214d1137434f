//! Evaluates the pure handle functions of the real code on requested inputs (JSON lines in, JSON
//! lines out), so that the specification can judge the answers.
use handles_utils::{converter, suffix, validator};
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn s_of(v: &Value) -> String {
	v.as_array().unwrap().iter().map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect()
}
fn cps(s: &str) -> Value {
	json!(s.chars().map(|c| c as u32).collect::<Vec<_>>())
}
fn eval(v: &Value) -> Value {
	match v["op"].as_str().unwrap() {
		"canon" => {
			let s = s_of(&v["s"]);
			let c = converter::convert_to_canonical(&s);
			let cc = converter::convert_to_canonical(&c);
			json!({"canon": cps(&c), "again": cps(&cc)})
		},
		"same" => {
			let (s, v) = (s_of(&v["s"]), s_of(&v["v"]));
			json!({"canon": cps(&converter::convert_to_canonical(&s)), "vcanon": cps(&converter::convert_to_canonical(&v))})
		},
		"valid" => {
			let s = s_of(&v["s"]);
			json!({"res": validator::is_reserved_handle(&s), "blk": validator::contains_blocked_characters(&s),
				"sup": validator::consists_of_supported_unicode_character_sets(&s)})
		},
		"split" => {
			let s = s_of(&v["s"]);
			match converter::split_display_name(&s) {
				None => json!({"some": false, "base": [], "suffix": 0}),
				Some((b, n)) => json!({"some": true, "base": cps(&b), "suffix": n}),
			}
		},
		"suffix" => {
			let s = s_of(&v["s"]);
			let (min, max) = (v["min"].as_u64().unwrap() as u16, v["max"].as_u64().unwrap() as u16);
			let full: Vec<u16> = suffix::generate_unique_suffixes(min, max, &s).collect();
			let again: Vec<u16> = suffix::generate_unique_suffixes(min, max, &s).collect();
			let n = v["take"].as_u64().unwrap() as usize;
			let pre: Vec<u16> = suffix::generate_unique_suffixes(min, max, &s).take(n).collect();
			let nth = suffix::generate_unique_suffixes(min, max, &s).nth(n);
			json!({"full": full, "again": again, "pre": pre, "distinct": full.iter().collect::<std::collections::BTreeSet<_>>().len(), "nth": nth.map(|x| x as i64).unwrap_or(-1),
				"seed": suffix::generate_seed(&s).to_le_bytes().to_vec()})
		},
		o => panic!("op {o}"),
	}
}
fn main() {
	std::panic::set_hook(Box::new(|_| {}));
	let out = std::io::stdout();
	let mut out = std::io::BufWriter::new(out.lock());
	for l in std::io::stdin().lock().lines() {
		let v: Value = serde_json::from_str(&l.unwrap()).unwrap();
		let mut o = v.clone();
		o["out"] = catch_unwind(AssertUnwindSafe(|| eval(&v))).unwrap_or_else(|_| json!({"panic": true}));
		writeln!(out, "{o}").unwrap();
	}
}
