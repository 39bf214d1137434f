//! Conformance driver for spec/WireEval.tla: what goes over the wire - JSON of the RPC types, SCALE of the types that are signed
//! or cross between node and runtime, and the wrapping of signed bytes.
use cfgs::*;
use common_primitives::handles::*;
use common_primitives::messages::*;
use common_primitives::msa::*;
use common_primitives::rpc::RpcEvent;
use common_primitives::schema::*;
use common_primitives::stateful_storage::*;
use common_primitives::utils::wrap_binary_data;
use drv::*;
use frame_support::BoundedVec;
use pallet_msa::types::{AddKeyData, AddProvider};
use pallet_stateful_storage::types::*;
use parity_scale_codec::{Decode, Encode};
use std::str::FromStr;

frame_support::construct_runtime!(
	pub enum Rt {
		System: frame_system,
		Msa: pallet_msa,
		Handles: pallet_handles,
		Schemas: pallet_schemas,
		Store: pallet_stateful_storage,
	}
);
system_config!(Rt);
msa_config!(Rt, schemas = Schemas, handles = Handles);
handles_config!(Rt, msa = Msa);
schemas_config!(Rt);
stateful_config!(Rt, msa = Msa, schemas = Schemas);
type Acc = <Rt as frame_system::Config>::AccountId;

fn num<T: FromStr>(v: &Value) -> T {
	v[0].as_str().unwrap().parse().ok().unwrap_or_else(|| panic!("driver: number {v}"))
}
fn raw(v: &Value) -> Vec<u8> {
	v.as_array().unwrap_or_else(|| panic!("driver: bytes {v}")).iter().map(|x| x.as_u64().unwrap() as u8).collect()
}
fn text(v: &Value) -> Vec<u8> {
	let b = raw(&v[1]);
	assert_eq!(v[0].as_str().unwrap().as_bytes(), &b[..], "driver: text");
	b
}
fn opt<T>(v: &Value, f: impl Fn(&Value) -> T) -> Option<T> {
	v.as_array().unwrap().first().map(f)
}
fn list<T>(v: &Value, f: impl Fn(&Value) -> T) -> Vec<T> {
	v.as_array().unwrap().iter().map(f).collect()
}
fn bounded<S: frame_support::traits::Get<u32>>(v: Vec<u8>) -> BoundedVec<u8, S> {
	BoundedVec::try_from(v).expect("driver: bound")
}
fn acc32(v: &Value) -> Acc {
	let b: [u8; 32] = raw(v).try_into().expect("driver: account");
	b.into()
}
fn model(v: &Value) -> ModelType {
	[ModelType::AvroBinary, ModelType::Parquet][v[0].as_u64().unwrap() as usize]
}
fn place(v: &Value) -> PayloadLocation {
	[PayloadLocation::OnChain, PayloadLocation::IPFS, PayloadLocation::Itemized, PayloadLocation::Paginated][v[0].as_u64().unwrap() as usize]
}
fn setting(v: &Value) -> SchemaSetting {
	[SchemaSetting::AppendOnly, SchemaSetting::SignatureRequired][v[0].as_u64().unwrap() as usize - 1]
}
fn message(f: &Value) -> MessageResponse {
	MessageResponse {
		provider_msa_id: num(&f["provider_msa_id"]),
		index: num(&f["index"]),
		block_number: num(&f["block_number"]),
		msa_id: opt(&f["msa_id"], num),
		payload: opt(&f["payload"], raw),
		cid: opt(&f["cid"], text),
		payload_length: opt(&f["payload_length"], num),
	}
}
fn item(f: &Value) -> ItemizedStorageResponse {
	ItemizedStorageResponse::new(num(&f["index"]), raw(&f["payload"]))
}
fn grant(f: &Value) -> SchemaGrant<u16, u32> {
	SchemaGrant { schema_id: num(&f["schema_id"]), revoked_at: num(&f["revoked_at"]) }
}
fn action(f: &Value) -> ItemAction<MaxItemizedBlobSizeBytes> {
	match f[0].as_u64().unwrap() {
		0 => ItemAction::Add { data: bounded(raw(&f[1])) },
		_ => ItemAction::Delete { index: num(&f[1]) },
	}
}
fn actions(f: &Value) -> BoundedVec<ItemAction<MaxItemizedBlobSizeBytes>, MaxItemizedActionsCount> {
	BoundedVec::try_from(list(f, action)).ok().expect("driver: actions")
}
/// JSON with its numbers as "#123" and null as "null!", which TLC can read
fn plain(v: Value) -> Value {
	match v {
		Value::Null => json!("null!"),
		Value::Number(n) => json!(format!("#{n}")),
		Value::Array(a) => Value::Array(a.into_iter().map(plain).collect()),
		Value::Object(o) => Value::Object(o.into_iter().map(|(k, v)| (k, plain(v))).collect()),
		v => v,
	}
}
fn scale<T: Encode + Decode>(x: &T, same: impl Fn(&T, &T) -> bool) -> Value {
	let b = x.encode();
	let mut inp = &b[..];
	let back = T::decode(&mut inp).map_or(false, |y| inp.is_empty() && same(x, &y));
	// no shorter string of bytes is one, too
	let cut = b.is_empty() || T::decode(&mut &b[..b.len() - 1]).is_err();
	json!({"bytes": b, "back": back, "cut": cut, "wrapped": wrap_binary_data(b.clone())})
}
fn sc<T: Encode + Decode + PartialEq>(x: T) -> Value {
	scale(&x, |a, b| a == b)
}
fn both<T: Encode + Decode + PartialEq + serde::Serialize + serde::de::DeserializeOwned>(x: T) -> Value {
	let mut o = scale(&x, |a, b| a == b);
	match serde_json::to_string(&x) {
		Err(_) => o["json"] = json!("no json"),
		Ok(s) => {
			o["json"] = plain(serde_json::from_str(&s).expect("driver: json"));
			o["jback"] = json!(serde_json::from_str::<T>(&s).map_or(false, |y| y == x));
		},
	}
	o
}
fn make(r: &Value) -> Value {
	let f = &r["f"];
	match st(r, "ty") {
		"DelegatorId" => both(DelegatorId(num(&f["id"]))),
		"ProviderId" => both(ProviderId(num(&f["id"]))),
		"SchemaGrant" => both(grant(f)),
		"DelegationResponse" => both(DelegationResponse { provider_id: ProviderId(num(&f["provider_id"])), permissions: list(&f["permissions"], grant) }),
		"KeyInfoResponse" => both(KeyInfoResponse::<String> {
			msa_id: num(&f["msa_id"]),
			msa_keys: list(&f["msa_keys"], |x| String::from_utf8(text(x)).unwrap()),
		}),
		"MessageResponse" => both(message(f)),
		"BlockPaginationRequest" => both(BlockPaginationRequest {
			from_block: num(&f["from_block"]),
			from_index: num(&f["from_index"]),
			to_block: num(&f["to_block"]),
			page_size: num(&f["page_size"]),
		}),
		"BlockPaginationResponse" => both(BlockPaginationResponse {
			content: list(&f["content"], message),
			has_next: f["has_next"][0] == 1,
			next_block: opt(&f["next_block"], num),
			next_index: opt(&f["next_index"], num),
		}),
		"HandleResponse" => both(HandleResponse { base_handle: text(&f["base_handle"]), canonical_base: text(&f["canonical_base"]), suffix: num(&f["suffix"]) }),
		"PresumptiveSuffixesResponse" => both(PresumptiveSuffixesResponse { base_handle: text(&f["base_handle"]), suffixes: list(&f["suffixes"], num) }),
		"PaginatedStorageResponse" => both(PaginatedStorageResponse {
			page_id: num(&f["page_id"]),
			msa_id: num(&f["msa_id"]),
			schema_id: num(&f["schema_id"]),
			content_hash: num(&f["content_hash"]),
			nonce: num(&f["nonce"]),
			payload: raw(&f["payload"]),
		}),
		"ItemizedStoragePageResponse" => both(ItemizedStoragePageResponse {
			msa_id: num(&f["msa_id"]),
			schema_id: num(&f["schema_id"]),
			content_hash: num(&f["content_hash"]),
			nonce: num(&f["nonce"]),
			items: list(&f["items"], item),
		}),
		"SchemaResponse" => both(SchemaResponse {
			schema_id: num(&f["schema_id"]),
			model: text(&f["model"]),
			model_type: model(&f["model_type"]),
			payload_location: place(&f["payload_location"]),
			settings: list(&f["settings"], setting),
		}),
		"SchemaInfoResponse" => both(SchemaInfoResponse {
			schema_id: num(&f["schema_id"]),
			model_type: model(&f["model_type"]),
			payload_location: place(&f["payload_location"]),
			settings: list(&f["settings"], setting),
		}),
		"SchemaVersionResponse" => both(SchemaVersionResponse {
			schema_name: text(&f["schema_name"]),
			schema_version: num(&f["schema_version"]),
			schema_id: num(&f["schema_id"]),
		}),
		"RpcEvent" => both(RpcEvent { phase: opt(&f["phase"], num), pallet: num(&f["pallet"]), event: num(&f["event"]), data: raw(&f["data"]) }),
		// what wallets sign
		"AddKeyData" => sc(AddKeyData::<Rt> { msa_id: num(&f["msa_id"]), expiration: num(&f["expiration"]), new_public_key: acc32(&f["new_public_key"]) }),
		"AddProvider" => sc(AddProvider { authorized_msa_id: num(&f["authorized_msa_id"]), schema_ids: list(&f["schema_ids"], num), expiration: num(&f["expiration"]) }),
		"ClaimHandlePayload" => sc(ClaimHandlePayload::<u32> { base_handle: raw(&f["base_handle"]), expiration: num(&f["expiration"]) }),
		"ItemizedSignaturePayload" => sc(ItemizedSignaturePayload::<Rt> {
			msa_id: num(&f["msa_id"]),
			schema_id: num(&f["schema_id"]),
			target_hash: num(&f["target_hash"]),
			expiration: num(&f["expiration"]),
			actions: actions(&f["actions"]),
		}),
		"ItemizedSignaturePayloadV2" => sc(ItemizedSignaturePayloadV2::<Rt> {
			schema_id: num(&f["schema_id"]),
			target_hash: num(&f["target_hash"]),
			expiration: num(&f["expiration"]),
			actions: actions(&f["actions"]),
		}),
		"PaginatedUpsertSignaturePayload" => sc(PaginatedUpsertSignaturePayload::<Rt> {
			msa_id: num(&f["msa_id"]),
			schema_id: num(&f["schema_id"]),
			page_id: num(&f["page_id"]),
			target_hash: num(&f["target_hash"]),
			expiration: num(&f["expiration"]),
			payload: bounded(raw(&f["payload"])),
		}),
		"PaginatedUpsertSignaturePayloadV2" => sc(PaginatedUpsertSignaturePayloadV2::<Rt> {
			schema_id: num(&f["schema_id"]),
			page_id: num(&f["page_id"]),
			target_hash: num(&f["target_hash"]),
			expiration: num(&f["expiration"]),
			payload: bounded(raw(&f["payload"])),
		}),
		"PaginatedDeleteSignaturePayload" => sc(PaginatedDeleteSignaturePayload::<Rt> {
			msa_id: num(&f["msa_id"]),
			schema_id: num(&f["schema_id"]),
			page_id: num(&f["page_id"]),
			target_hash: num(&f["target_hash"]),
			expiration: num(&f["expiration"]),
		}),
		"PaginatedDeleteSignaturePayloadV2" => sc(PaginatedDeleteSignaturePayloadV2::<Rt> {
			schema_id: num(&f["schema_id"]),
			page_id: num(&f["page_id"]),
			target_hash: num(&f["target_hash"]),
			expiration: num(&f["expiration"]),
		}),
		k => panic!("driver: type {k}"),
	}
}
fn main() {
	for (k, v) in [("MaxItemizedPageSizeBytes", 10260), ("MaxPaginatedPageSizeBytes", 1024), ("MaxItemizedBlobSizeBytes", 1024), ("MaxItemizedActionsCount", 5), ("MaxPaginatedPageId", 32)] {
		set_param(k, v);
	}
	msa_defaults();
	eval_lines(|r| match st(r, "op") {
		"value" => make(r),
		// bytes that are no text cannot be shown as text, rather than being shown as another text
		"text" => {
			let x = HandleResponse { base_handle: raw(&r["b"]), canonical_base: vec![], suffix: 1 };
			let y = MessageResponse { cid: Some(raw(&r["b"])), ..Default::default() };
			json!({"ok": serde_json::to_string(&x).is_ok(), "opt": serde_json::to_string(&y).is_ok()})
		},
		k => panic!("driver: op {k}"),
	});
}
