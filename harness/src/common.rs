//! Observations that are available with and without the standard library (shared with ../twin).

use crate::obs;
use crate::proj::*;
use fuel_tx::field::{
    BytecodeLength, BytecodeWitnessIndex, GasLimit, GasPrice, Inputs, Maturity, Outputs, ReceiptsRoot, Salt as SaltField,
    Script as ScriptField, ScriptData, StorageSlots, TxPointer as TxPointerField, Witnesses,
};
use fuel_tx::{Chargeable, Checkable, Contract, Executable, Input, Output, Transaction, TransactionFee, Witness};
use fuel_types::bytes::SizedBytes;
use serde_json::{json, Value};

pub fn fee_to(f: &TransactionFee) -> Value {
    json!({"min": w(f.min()), "total": w(f.total()), "minGas": w(f.min_gas()), "maxGas": w(f.max_gas())})
}

pub fn inputs_of(t: &Transaction) -> Option<&Vec<Input>> {
    match t {
        Transaction::Script(t) => Some(t.inputs()),
        Transaction::Create(t) => Some(t.inputs()),
        Transaction::Mint(_) => None,
    }
}
pub fn outputs_of(t: &Transaction) -> &Vec<Output> {
    match t {
        Transaction::Script(t) => t.outputs(),
        Transaction::Create(t) => t.outputs(),
        Transaction::Mint(t) => t.outputs(),
    }
}
pub fn wits_of(t: &Transaction) -> &[Witness] {
    match t {
        Transaction::Script(t) => t.witnesses(),
        Transaction::Create(t) => t.witnesses(),
        Transaction::Mint(_) => &[],
    }
}

pub fn on(x: Option<usize>) -> Value {
    match x { Some(n) => json!(n), None => json!(-1) }
}
pub fn op(x: Option<(usize, usize)>) -> Value {
    match x { Some((a, b)) => json!([a, b]), None => json!([]) }
}

macro_rules! io_offsets {
    ($t:expr, $o:expr) => {{
        let (t, o) = ($t, $o);
        let (ni, no, nw) = (t.inputs().len(), t.outputs().len(), t.witnesses().len());
        o.insert("inputs".into(), json!(t.inputs_offset()));
        o.insert("outputs".into(), json!(t.outputs_offset()));
        o.insert("witnesses".into(), json!(t.witnesses_offset()));
        // two indexes past the end are asked for as well
        o.insert("inputsAt".into(), (0..ni + 2).map(|i| on(t.inputs_offset_at(i))).collect());
        o.insert("predAt".into(), (0..ni + 2).map(|i| op(t.inputs_predicate_offset_at(i))).collect());
        o.insert("outputsAt".into(), (0..no + 2).map(|i| on(t.outputs_offset_at(i))).collect());
        o.insert("witnessesAt".into(), (0..nw + 2).map(|i| on(t.witnesses_offset_at(i))).collect());
    }};
}

pub fn offs(tx: &Transaction) -> Value {
    let mut o = serde_json::Map::new();
    match tx {
        Transaction::Script(t) => {
            o.insert("price".into(), json!(t.gas_price_offset()));
            o.insert("limit".into(), json!(t.gas_limit_offset()));
            o.insert("maturity".into(), json!(t.maturity_offset()));
            o.insert("rroot".into(), json!(t.receipts_root_offset()));
            o.insert("script".into(), json!(t.script_offset()));
            o.insert("data".into(), json!(t.script_data_offset()));
            io_offsets!(t, &mut o);
        }
        Transaction::Create(t) => {
            o.insert("price".into(), json!(t.gas_price_offset()));
            o.insert("limit".into(), json!(t.gas_limit_offset()));
            o.insert("maturity".into(), json!(t.maturity_offset()));
            o.insert("bcl".into(), json!(t.bytecode_length_offset()));
            o.insert("bwi".into(), json!(t.bytecode_witness_index_offset()));
            o.insert("salt".into(), json!(t.salt_offset()));
            o.insert("slots".into(), json!(t.storage_slots_offset()));
            o.insert("slotsAt".into(), (0..t.storage_slots().len() + 2).map(|i| on(t.storage_slots_offset_at(i))).collect());
            io_offsets!(t, &mut o);
        }
        Transaction::Mint(t) => {
            o.insert("ptr".into(), json!(t.tx_pointer_offset()));
            o.insert("outputs".into(), json!(t.outputs_offset()));
            o.insert("outputsAt".into(), (0..t.outputs().len() + 2).map(|i| on(t.outputs_offset_at(i))).collect());
        }
    }
    Value::Object(o)
}

pub fn metered(tx: &Transaction) -> usize {
    match tx {
        Transaction::Script(t) => t.metered_bytes_size(),
        Transaction::Create(t) => t.metered_bytes_size(),
        Transaction::Mint(_) => 0,
    }
}


/// Everything both builds can say about a transaction.
pub fn summary(c: &Value, tx: &Transaction) -> Value {
    let p = params_from(g(c, "params"));
    let h = gw(c, "height");
    let mut o = serde_json::Map::new();
    o.insert("ws".into(), obs(|| match tx {
        Transaction::Script(t) => verdict(&t.check_without_signatures(h, &p)),
        Transaction::Create(t) => verdict(&t.check_without_signatures(h, &p)),
        Transaction::Mint(t) => verdict(&t.check_without_signatures(h, &p)),
    }));
    o.insert("wsEnum".into(), obs(|| verdict(&tx.check_without_signatures(h, &p))));
    let sorted = |mut v: Vec<String>| { v.sort(); json!(v) };
    o.insert("assets".into(), obs(|| match tx {
        Transaction::Script(t) => sorted(t.input_asset_ids_unique().map(|a| hex(a.as_ref())).collect()),
        Transaction::Create(t) => sorted(t.input_asset_ids_unique().map(|a| hex(a.as_ref())).collect()),
        Transaction::Mint(_) => json!([]),
    }));
    o.insert("size".into(), obs(|| json!(tx.serialized_size())));
    o.insert("offs".into(), obs(|| offs(tx)));
    o.insert("metered".into(), obs(|| json!(metered(tx))));
    let fee = |f: Option<TransactionFee>| match f { Some(f) => fee_to(&f), None => json!("none") };
    o.insert("fee".into(), obs(|| match tx {
        Transaction::Script(t) => fee(TransactionFee::checked_from_tx(&p, t)),
        Transaction::Create(t) => fee(TransactionFee::checked_from_tx(&p, t)),
        Transaction::Mint(_) => json!("none"),
    }));
    o.insert("prepIns".into(), obs(|| match inputs_of(tx) {
        Some(ins) => ins.iter().map(|i| { let mut i = i.clone(); i.prepare_init_predicate(); input_to(&i) }).collect(),
        None => json!([]),
    }));
    o.insert("prepOuts".into(), obs(|| outputs_of(tx).iter().map(|i| { let mut i = i.clone(); i.prepare_init_predicate(); output_to(&i) }).collect()));
    o.insert("derived".into(), obs(|| match inputs_of(tx) {
        Some(ins) => ins.iter().map(|i| {
            let po = i.input_predicate().map(|p| hex(Input::predicate_owner(p).as_ref()));
            let mid = match (i.sender(), i.recipient(), i.nonce(), i.amount(), i.input_data()) {
                (Some(s), Some(r), Some(n), Some(a), Some(d)) => Some(hex(Input::compute_message_id(s, r, n, a, d).as_ref())),
                _ => None,
            };
            json!([po.unwrap_or_default(), mid.unwrap_or_default()])
        }).collect(),
        None => json!([]),
    }));
    o.insert("roots".into(), obs(|| {
        let code: Vec<Value> = wits_of(tx).iter().map(|x| json!(hex(Contract::root_from_code(x.as_ref()).as_ref()))).collect();
        match tx {
            Transaction::Create(t) => {
                let sr = Contract::initial_state_root(t.storage_slots().iter());
                json!({"code": code, "state": hex(sr.as_ref())})
            }
            _ => json!({"code": code}),
        }
    }));
    Value::Object(o)
}
