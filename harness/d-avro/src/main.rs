//! Evaluates the Avro helpers on requested schemas, records and data.
use apache_avro::Schema;
use common_helpers::{avro, types::SchemaValue};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn bytes(v: &Value) -> Vec<u8> {
	v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect()
}
fn schema_json(s: &Value) -> Value {
	match s[0].as_str().unwrap() {
		"array" => json!({"type": "array", "items": schema_json(&s[1])}),
		"map" => json!({"type": "map", "values": schema_json(&s[1])}),
		"union" => Value::Array(s[1].as_array().unwrap().iter().map(schema_json).collect()),
		"record" => json!({"type": "record", "name": s[1], "fields": s[2].as_array().unwrap().iter().map(|f| json!({"name": f[0], "type": schema_json(&f[1])})).collect::<Vec<_>>()}),
		"enum" => json!({"type": "enum", "name": s[1], "symbols": s[2]}),
		"fixed" => json!({"type": "fixed", "name": s[1], "size": s[2]}),
		"ref" => s[1].clone(),
		p => json!(p),
	}
}
fn to_value(v: &Value) -> SchemaValue {
	let le8 = |b: &Value| i64::from_le_bytes(bytes(b).try_into().unwrap());
	match v[0].as_str().unwrap() {
		"null" => SchemaValue::Null,
		"boolean" => SchemaValue::Boolean(v[1] == 1),
		"int" => SchemaValue::Int(le8(&v[1]) as i32),
		"long" => SchemaValue::Long(le8(&v[1])),
		"float" => SchemaValue::Float(f32::from_le_bytes(bytes(&v[1]).try_into().unwrap())),
		"double" => SchemaValue::Double(f64::from_le_bytes(bytes(&v[1]).try_into().unwrap())),
		"bytes" => SchemaValue::Bytes(bytes(&v[1])),
		"string" => SchemaValue::String(String::from_utf8(bytes(&v[1])).unwrap()),
		"enum" => SchemaValue::Enum(v[1].as_u64().unwrap() as u32, v[2].as_str().unwrap().into()),
		"fixed" => SchemaValue::Fixed(v[1].as_array().unwrap().len(), bytes(&v[1])),
		"array" => SchemaValue::Array(v[1].as_array().unwrap().iter().map(to_value).collect()),
		"map" => SchemaValue::Map(v[1].as_array().unwrap().iter().map(|e| (String::from_utf8(bytes(&e[0])).unwrap(), to_value(&e[1]))).collect()),
		"union" => SchemaValue::Union(v[1].as_u64().unwrap() as u32, Box::new(to_value(&v[2]))),
		"record" => SchemaValue::Record(v[1].as_array().unwrap().iter().map(|e| (e[0].as_str().unwrap().into(), to_value(&e[1]))).collect()),
		t => panic!("value {t}"),
	}
}
fn of_value(v: &SchemaValue) -> Value {
	match v {
		SchemaValue::Null => json!(["null", 0]),
		SchemaValue::Boolean(b) => json!(["boolean", *b as u8]),
		SchemaValue::Int(n) => json!(["int", (*n as i64).to_le_bytes()]),
		SchemaValue::Long(n) => json!(["long", n.to_le_bytes()]),
		SchemaValue::Float(x) => json!(["float", x.to_le_bytes()]),
		SchemaValue::Double(x) => json!(["double", x.to_le_bytes()]),
		SchemaValue::Bytes(b) => json!(["bytes", b]),
		SchemaValue::String(s) => json!(["string", s.as_bytes()]),
		SchemaValue::Enum(i, s) => json!(["enum", i, s]),
		SchemaValue::Fixed(_, b) => json!(["fixed", b]),
		SchemaValue::Array(a) => json!(["array", a.iter().map(of_value).collect::<Vec<_>>()]),
		SchemaValue::Map(m) => json!(["map", m.iter().map(|(k, x)| json!([k.as_bytes(), of_value(x)])).collect::<Vec<_>>()]),
		SchemaValue::Union(i, x) => json!(["union", i, of_value(x)]),
		SchemaValue::Record(r) => json!(["record", r.iter().map(|(k, x)| json!([k, of_value(x)])).collect::<Vec<_>>()]),
		_ => json!(["other", 0]),
	}
}
/// the returned map in the order of the schema's fields, anything else it holds after them
fn map_value(s: &Value, m: &HashMap<String, SchemaValue>) -> Value {
	let mut names: Vec<String> = s[2].as_array().unwrap().iter().map(|f| f[0].as_str().unwrap().to_string()).collect();
	let mut rest: Vec<String> = m.keys().filter(|k| !names.contains(k)).cloned().collect();
	rest.sort();
	names.retain(|n| m.contains_key(n));
	names.extend(rest);
	json!(["record", names.iter().map(|n| json!([n, of_value(&m[n])])).collect::<Vec<_>>()])
}
/// a container file written by the schema writer reads back as the same record
fn container(schema: &Schema, m: &HashMap<String, SchemaValue>) -> bool {
	let mut w = avro::get_schema_data_writer(schema);
	let mut r = apache_avro::types::Record::new(w.schema()).unwrap();
	for (k, x) in m {
		r.put(k, x.clone());
	}
	if w.append(r).is_err() {
		return false;
	}
	let Ok(b) = w.into_inner() else { return false };
	let Ok(rd) = apache_avro::Reader::new(&b[..]) else { return false };
	let all: Vec<_> = rd.collect();
	match &all[..] {
		[Ok(SchemaValue::Record(fs))] => fs.len() == m.len() && fs.iter().all(|(k, x)| m.get(k) == Some(x)),
		_ => false,
	}
}
fn eval(v: &Value) -> Value {
	match v["op"].as_str().unwrap() {
		"ser" => {
			let schema: Schema = avro::fingerprint_raw_schema(&schema_json(&v["s"]).to_string()).expect("schema").0;
			let m: HashMap<String, SchemaValue> = v["m"].as_array().unwrap().iter().map(|e| (e[0].as_str().unwrap().to_string(), to_value(&e[1]))).collect();
			match avro::populate_schema_and_serialize(&schema, &m) {
				Err(_) => json!({"ok": false}),
				Ok(b) => match avro::get_schema_data_map(&b, &schema) {
					Err(_) => json!({"ok": true, "bytes": b, "back": false}),
					Ok(m) => json!({"ok": true, "bytes": b, "back": true, "map": map_value(&v["s"], &m), "ctr": container(&schema, &m)}),
				},
			}
		},
		"dec" => {
			let schema: Schema = avro::translate_schema(schema_json(&v["s"]).to_string().into_bytes()).expect("schema");
			match avro::get_schema_data_map(&bytes(&v["d"]), &schema) {
				Err(_) => json!({"ok": false}),
				Ok(m) => json!({"ok": true, "map": map_value(&v["s"], &m)}),
			}
		},
		"parse" => {
			let raw = bytes(&v["text"]);
			let valid = avro::validate_raw_avro_schema(&raw).is_ok();
			let tr = avro::translate_schema(raw.clone()).is_ok();
			match std::str::from_utf8(&raw).ok().and_then(|t| avro::fingerprint_raw_schema(t).ok()) {
				None => json!({"fp": false, "valid": valid, "tr": tr}),
				Some((_, c)) => {
					let canon = String::from_utf8(c).expect("canonical form is text");
					let again = avro::fingerprint_raw_schema(&canon).map(|x| x.1 == canon.as_bytes()).unwrap_or(false);
					json!({"fp": true, "valid": valid, "tr": tr, "canon": canon, "again": again})
				},
			}
		},
		o => panic!("op {o}"),
	}
}
fn main() {
	std::panic::set_hook(Box::new(|_| {}));
	let out = std::io::stdout();
	let mut out = std::io::BufWriter::new(out.lock());
	for l in std::io::stdin().lock().lines() {
		let v: Value = serde_json::from_str(&l.unwrap()).unwrap();
		let mut o = v.clone();
		o["out"] = catch_unwind(AssertUnwindSafe(|| eval(&v))).unwrap_or_else(|_| json!({"panic": true}));
		writeln!(out, "{o}").unwrap();
	}
}
