A = "common/helpers/src/avro.rs"
def le8(n): return list((n % 2**64).to_bytes(8, "little"))
SEEDS = [
 dict(id="a01-null-union-dropped", property="A01", driver="d-avro",
  needs="a record with an optional field that holds null, read back",
  breaks="fields whose optional value is null are missing from the map that is read back",
  edits=[(A, "\t\t\tfor (field_name, field_value) in record.iter() {\n", "\t\t\tfor (field_name, field_value) in record.iter() {\n\t\t\t\tif let SchemaValue::Union(0, inner) = field_value {\n\t\t\t\t\tif **inner == SchemaValue::Null && record.len() > 1 {\n\t\t\t\t\t\tcontinue\n\t\t\t\t\t}\n\t\t\t\t}\n")],
  cases=[{"op": "ser", "s": ["record", "R", [["a", ["union", [["null"], ["int"]]]], ["b", ["int"]]]], "m": [["a", ["union", 0, ["null", 0]]], ["b", ["int", le8(7)]]]}],
  expect=[(0, "out.map.1.0.0", "a"), (0, "out.map.1.1.0", "b")]),
 dict(id="a01-lossy-validate", property="A01", driver="d-avro",
  needs="a schema text with bytes that are not UTF-8, inside a string such as a doc or a symbol",
  breaks="texts that are not UTF-8 pass validation although no schema can be made from them",
  edits=[(A, "match String::from_utf8(json_schema.clone()) {\n\t\tErr(_e) => Err(AvroError::InvalidSchema(\"Invalid schema\".to_string())),\n\t\tOk(avro_schema) => {",
    "if json_schema.is_empty() {\n\t\treturn Err(AvroError::InvalidSchema(\"Invalid schema\".to_string()))\n\t}\n\tmatch String::from_utf8_lossy(json_schema).into_owned() {\n\t\tavro_schema => {")],
  cases=[{"op": "parse", "good": False, "text": list(b'{"type":"record","name":"R","doc":"\xff","fields":[]}')}],
  expect=[(0, "out.valid", False), (0, "out.fp", False)]),
 dict(id="a01-string-trimmed", property="A01", driver="d-avro",
  needs="a string field whose value ends with a NUL character",
  breaks="trailing NUL characters of top-level strings are lost on reading",
  edits=[(A, "result_record.insert(field_name.clone(), field_value.clone());", "let value = match field_value {\n\t\t\t\t\tSchemaValue::String(s) => SchemaValue::String(s.trim_end_matches('\\0').to_string()),\n\t\t\t\t\tother => other.clone(),\n\t\t\t\t};\n\t\t\t\tresult_record.insert(field_name.clone(), value);")],
  cases=[{"op": "ser", "s": ["record", "R", [["a", ["string"]]]], "m": [["a", ["string", [97, 0]]]]}],
  expect=[(0, "out.map.1.0.1.1", [97, 0])]),
]
