import json
def cfg(n): return json.load(open(f"/verif/spec/cfg/{n}.json"))
L, T, PQ = "pallets/schemas/src/lib.rs", "pallets/schemas/src/types.rs", "common/primitives/src/parquet/mod.rs"
BASE = {k: v for k, v in cfg("schemas_names").items() if k not in ("mc", "pre")}
c = lambda s: list(s.encode())
def base(pre=(), **kw): return dict(BASE, pre=list(pre), **kw)
def make(name="", k="create", by="k1", model="ok_avro", type="avro", loc="chain", settings=(), ver=3, **kw):
    return dict(k=k, by=by, model=model, type=type, loc=loc, settings=list(settings), ver=ver, named=name != "", name=c(name), **kw)
def ask(n): return {"k": "ask", "name": c(n)}
SEEDS = [
 dict(id="s01-only-last-setting-kept", property="S01", driver="d-schema", cfg=base(),
  needs="a schema registered with two different settings",
  breaks="the stored schema loses all settings but the last",
  edits=[(L, "\t\t\t\t\tset_settings.set(i);\n", "\t\t\t\t\tset_settings = SchemaSettings::all_disabled();\n\t\t\t\t\tset_settings.set(i);\n")],
  acts=[make(loc="items", settings=["append", "signed"])], expect=[(0, "r.r", "ok"), (0, "t.sch.1.set_set", ["append", "signed"])]),
 dict(id="s01-last-identifier-reissued", property="S01", driver="d-schema", cfg=base([{"k": "skip", "n": 65534}]),
  needs="65535 registered schemas",
  breaks="when identifiers are used up the last schema is overwritten instead of the creation being refused",
  edits=[(L, "\t\t\tlet next = Self::get_current_schema_identifier_maximum()\n\t\t\t\t.checked_add(1)\n\t\t\t\t.ok_or(Error::<T>::SchemaCountOverflow)?;\n\n\t\t\tOk(next)", "\t\t\tlet next = Self::get_current_schema_identifier_maximum().saturating_add(1);\n\t\t\tensure!(next > 0, Error::<T>::SchemaCountOverflow);\n\n\t\t\tOk(next)")],
  acts=[make(), make(loc="items")], expect=[(0, "r.r", "ok"), (1, "r.r", "err"), (1, "t.sch.65535.loc", "chain")]),
 dict(id="s02-append-only-second-setting-unchecked", property="S02", driver="d-schema", cfg=base(),
  needs="two settings with append-only second, on a location that is not itemized",
  breaks="append-only is registered for a schema that is not itemized",
  edits=[(L, "!settings.contains(&SchemaSetting::AppendOnly) ||", "settings.first() != Some(&SchemaSetting::AppendOnly) ||")],
  acts=[make(loc="pages", settings=["signed", "append"]), make(loc="pages", settings=["append"])], expect=[(0, "r.r", "err"), (1, "r.r", "err")]),
 dict(id="s02-size-limit-of-old-setting", property="S02", driver="d-schema", cfg=base(),
  needs="a creation through governance after the governed size limit was lowered below the model's size",
  breaks="models above the current limit are registered",
  edits=[(L, "\t\t\tGovernanceSchemaModelMaxBytes::<T>::set(max_size);\n", "\t\t\tGovernanceSchemaModelMaxBytes::<T>::mutate(|current| *current = max_size.max(*current));\n")],
  acts=[{"k": "limit", "root": True, "n": 10}, make(k="govern", root=True)], expect=[(0, "t.limit", 10), (1, "r.r", "err")]),
 dict(id="s03-descriptor-with-a-dot", property="S03", driver="d-schema", cfg=base(),
  needs="a schema name with two separators",
  breaks="a malformed name with more than one separator is accepted",
  edits=[(T, "str.split(SEPARATOR_CHAR).collect();", "str.splitn(2, SEPARATOR_CHAR).collect();")],
  acts=[make("abc.x"), make("abc.x.y")], expect=[(0, "r.r", "ok"), (1, "r.r", "err")]),
 dict(id="s03-version-beyond-limit-dropped", property="S03", driver="d-schema", cfg=base([make("abc.x", k="bulk", n=254)]),
  needs="254 versions of one schema name",
  breaks="a further schema of that name is registered although the name does not list it",
  edits=[(T, "\t\tself.ids\n\t\t\t.try_push(schema_id)\n\t\t\t.map_err(|_| Error::<T>::ExceedsMaxNumberOfVersions)?;\n", "\t\tlet known = SchemaVersion::try_from(self.ids.len())\n\t\t\t.map_err(|_| Error::<T>::ExceedsMaxNumberOfVersions)?;\n\t\tif self.ids.try_push(schema_id).is_err() {\n\t\t\treturn Ok(known)\n\t\t}\n")],
  acts=[make("abc.x")], expect=[(0, "r.r", "err"), (0, "t.max", 254)]),
 dict(id="s03-namespace-query-latest-only", property="S03", driver="d-schema", cfg=base(),
  needs="a query by namespace where a name has two versions",
  breaks="a namespace query lists only the newest version of each name",
  edits=[(L, "\t\t\t\t\t\tval.convert_to_response(&parsed_name.new_with_descriptor(descriptor))\n", "\t\t\t\t\t\tval.convert_to_response(&parsed_name.new_with_descriptor(descriptor))\n\t\t\t\t\t\t\t.pop()\n")],
  acts=[make("abc.x"), make("abc.x"), ask("abc")], expect=[(2, "r.n", 2)]),
]
