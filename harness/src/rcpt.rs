use crate::ops::{oh, ow};
use crate::proj::*;
use crate::{guarded, obs, peak_of};
use fuel_asm::InstructionResult;
use fuel_tx::{Receipt, ScriptExecutionResult};
use fuel_types::bytes::{Deserializable, SerializableVec, SizedBytes};
use fuel_types::{Address, AssetId, Bytes32, ContractId, MessageId};
use serde_json::{json, Value};
use std::io::{Read, Write};

fn sres(v: &Value) -> ScriptExecutionResult {
    match gs(v, "t") {
        "success" => ScriptExecutionResult::Success,
        "revert" => ScriptExecutionResult::Revert,
        "panic" => ScriptExecutionResult::Panic,
        "generic" => ScriptExecutionResult::GenericFailure(gw(v, "c")),
        t => panic!("harness: result {t}"),
    }
}
fn sres_to(r: &ScriptExecutionResult) -> Value {
    match r {
        ScriptExecutionResult::Success => json!({"t": "success"}),
        ScriptExecutionResult::Revert => json!({"t": "revert"}),
        ScriptExecutionResult::Panic => json!({"t": "panic"}),
        ScriptExecutionResult::GenericFailure(c) => json!({"t": "generic", "c": w(*c)}),
    }
}

/// Projection through the enum's public fields (not through the accessors, which are under test).
pub fn rc_to(r: &Receipt) -> Value {
    let h = |x: &[u8]| hex(x);
    match r {
        Receipt::Call { id, to, amount, asset_id, gas, param1, param2, pc, is } => json!({"t": "call", "id": h(id.as_ref()), "to": h(to.as_ref()), "amount": w(*amount),
            "asset": h(asset_id.as_ref()), "gas": w(*gas), "param1": w(*param1), "param2": w(*param2), "pc": w(*pc), "is": w(*is)}),
        Receipt::Return { id, val, pc, is } => json!({"t": "return", "id": h(id.as_ref()), "val": w(*val), "pc": w(*pc), "is": w(*is)}),
        Receipt::ReturnData { id, ptr, len, digest, data, pc, is } => json!({"t": "returnData", "id": h(id.as_ref()), "ptr": w(*ptr), "len": w(*len), "digest": h(digest.as_ref()), "data": h(data), "pc": w(*pc), "is": w(*is)}),
        Receipt::Panic { id, reason, pc, is, contract_id } => json!({"t": "panic", "id": h(id.as_ref()), "reason": w(u64::from(*reason)), "pc": w(*pc), "is": w(*is), "pcid": oh(contract_id.as_ref())}),
        Receipt::Revert { id, ra, pc, is } => json!({"t": "revert", "id": h(id.as_ref()), "ra": w(*ra), "pc": w(*pc), "is": w(*is)}),
        Receipt::Log { id, ra, rb, rc, rd, pc, is } => json!({"t": "log", "id": h(id.as_ref()), "ra": w(*ra), "rb": w(*rb), "rc": w(*rc), "rd": w(*rd), "pc": w(*pc), "is": w(*is)}),
        Receipt::LogData { id, ra, rb, ptr, len, digest, data, pc, is } => json!({"t": "logData", "id": h(id.as_ref()), "ra": w(*ra), "rb": w(*rb), "ptr": w(*ptr), "len": w(*len), "digest": h(digest.as_ref()), "data": h(data), "pc": w(*pc), "is": w(*is)}),
        Receipt::Transfer { id, to, amount, asset_id, pc, is } => json!({"t": "transfer", "id": h(id.as_ref()), "to": h(to.as_ref()), "amount": w(*amount), "asset": h(asset_id.as_ref()), "pc": w(*pc), "is": w(*is)}),
        Receipt::TransferOut { id, to, amount, asset_id, pc, is } => json!({"t": "transferOut", "id": h(id.as_ref()), "to": h(to.as_ref()), "amount": w(*amount), "asset": h(asset_id.as_ref()), "pc": w(*pc), "is": w(*is)}),
        Receipt::ScriptResult { result, gas_used } => json!({"t": "scriptResult", "result": sres_to(result), "gasUsed": w(*gas_used)}),
        Receipt::MessageOut { message_id, sender, recipient, amount, nonce, len, digest, data } => json!({"t": "messageOut", "mid": h(message_id.as_ref()), "sender": h(sender.as_ref()), "recipient": h(recipient.as_ref()),
            "amount": w(*amount), "nonce": h(nonce.as_ref()), "len": w(*len), "digest": h(digest.as_ref()), "data": h(data)}),
    }
}

/// Constructors under test: "len" present selects the *_with_len form, "txid" the derived message.
pub fn build(v: &Value) -> Receipt {
    let cid = |k: &str| ContractId::from(g32(v, k));
    let b32 = |k: &str| Bytes32::from(g32(v, k));
    let word = |k: &str| gw(v, k);
    match gs(v, "t") {
        "call" => Receipt::call(cid("id"), cid("to"), word("amount"), AssetId::from(g32(v, "asset")), word("gas"), word("param1"), word("param2"), word("pc"), word("is")),
        "return" => Receipt::ret(cid("id"), word("val"), word("pc"), word("is")),
        "returnData" => match v.get("len") {
            Some(l) => Receipt::return_data_with_len(cid("id"), word("ptr"), unw(l), b32("digest"), gb(v, "data"), word("pc"), word("is")),
            None => Receipt::return_data(cid("id"), word("ptr"), b32("digest"), gb(v, "data"), word("pc"), word("is")),
        },
        "panic" => {
            let r = Receipt::panic(cid("id"), InstructionResult::from(word("reason")), word("pc"), word("is"));
            match gs(v, "pcid") {
                "none" => r,
                x => r.with_panic_contract_id(Some(ContractId::from(arr32(&unhex(x))))),
            }
        }
        "revert" => Receipt::revert(cid("id"), word("ra"), word("pc"), word("is")),
        "log" => Receipt::log(cid("id"), word("ra"), word("rb"), word("rc"), word("rd"), word("pc"), word("is")),
        "logData" => match v.get("len") {
            Some(l) => Receipt::log_data_with_len(cid("id"), word("ra"), word("rb"), word("ptr"), unw(l), b32("digest"), gb(v, "data"), word("pc"), word("is")),
            None => Receipt::log_data(cid("id"), word("ra"), word("rb"), word("ptr"), b32("digest"), gb(v, "data"), word("pc"), word("is")),
        },
        "transfer" => Receipt::transfer(cid("id"), cid("to"), word("amount"), AssetId::from(g32(v, "asset")), word("pc"), word("is")),
        "transferOut" => Receipt::transfer_out(cid("id"), Address::from(g32(v, "to")), word("amount"), AssetId::from(g32(v, "asset")), word("pc"), word("is")),
        "scriptResult" => Receipt::script_result(sres(g(v, "result")), word("gasUsed")),
        "messageOut" => {
            let (s, r) = (Address::from(g32(v, "sender")), Address::from(g32(v, "recipient")));
            if v.get("txid").is_some() {
                Receipt::message_out_from_tx_output(&b32("txid"), word("idx"), s, r, word("amount"), gb(v, "data"))
            } else if let Some(l) = v.get("len") {
                Receipt::message_out_with_len(MessageId::from(g32(v, "mid")), s, r, word("amount"), b32("nonce"), unw(l), b32("digest"), gb(v, "data"))
            } else {
                Receipt::message_out(MessageId::from(g32(v, "mid")), s, r, word("amount"), b32("nonce"), b32("digest"), gb(v, "data"))
            }
        }
        t => panic!("harness: receipt {t}"),
    }
}

fn acc(r: &Receipt) -> Value {
    json!({"id": oh(r.id()), "pc": ow(r.pc()), "is": ow(r.is()), "to": oh(r.to()), "toAddress": oh(r.to_address()), "amount": ow(r.amount()), "asset": oh(r.asset_id()),
        "gas": ow(r.gas()), "param1": ow(r.param1()), "param2": ow(r.param2()), "val": ow(r.val()), "ptr": ow(r.ptr()), "len": ow(r.len()),
        "empty": match r.is_empty() { Some(true) => "true", Some(false) => "false", None => "none" },
        "digest": oh(r.digest()), "data": oh(r.data()), "reason": ow(r.reason().map(u64::from)), "ra": ow(r.ra()), "rb": ow(r.rb()), "rc": ow(r.rc()), "rd": ow(r.rd()),
        "result": r.result().map(sres_to).unwrap_or(json!("none")), "gasUsed": ow(r.gas_used()), "mid": oh(r.message_id()), "sender": oh(r.sender()),
        "recipient": oh(r.recipient()), "nonce": oh(r.nonce()), "pcid": oh(r.contract_id())})
}

/// Panic reasons are words of fuel-asm's InstructionResult; not every word is one.
pub fn settle(v: &mut Value) {
    if gs(v, "t") == "panic" {
        let x = u64::from(InstructionResult::from(gw(v, "reason")));
        v["reason"] = json!(w(x));
    }
}

pub fn receipt(c: &mut Value) -> Value {
    settle(&mut c["v"]);
    let r = build(g(c, "v"));
    let n = r.serialized_size();
    let bytes = r.clone().to_bytes();
    let back = match guarded(|| Receipt::from_bytes(&bytes)) {
        Ok(Ok(b)) => json!({"r": "ok", "v": rc_to(&b), "eq": b == r}),
        Ok(Err(_)) => json!({"r": "err"}),
        Err(m) => json!({"r": "panic", "m": m}),
    };
    let mut trail = bytes.clone();
    trail.extend_from_slice(&[0xab; 24]);
    let mut z = Receipt::ret(Default::default(), 0, 0, 0);
    let used = match guarded(|| z.write(&trail)) { Ok(Ok(n)) => json!(n), Ok(Err(_)) => json!(-1), Err(_) => json!(-2) };
    // decoded over receipts of other kinds
    let over: Vec<Value> = [Receipt::transfer([1; 32].into(), [2; 32].into(), 3, [4; 32].into(), 5, 6), Receipt::log_data([1; 32].into(), 2, 3, 4, [6; 32].into(), vec![7; 13], 8, 9),
        Receipt::message_out([1; 32].into(), [2; 32].into(), [3; 32].into(), 4, [5; 32].into(), [6; 32].into(), vec![7; 3]), Receipt::panic([1; 32].into(), InstructionResult::from(7u64 << 56), 2, 3)].into_iter().map(|mut q| {
        let done = guarded(|| q.write(&trail));
        match done { Ok(Ok(n)) => json!({"r": "ok", "n": n, "v": rc_to(&q)}), Ok(Err(_)) => json!({"r": "err"}), Err(_) => json!({"r": "panic"}) }
    }).collect();
    let mut small = Vec::new();
    for s in [0, 1, 7, 8, n / 2, n - 1] {
        if s >= n { continue }
        small.push(match guarded(|| r.clone().read(&mut vec![0u8; s])) { Ok(Ok(_)) => "ok", Ok(Err(_)) => "err", Err(_) => "panic" });
        small.push(match guarded(|| Receipt::from_bytes(&bytes[..s])) { Ok(Ok(_)) => "ok", Ok(Err(_)) => "err", Err(_) => "panic" });
    }
    small.sort();
    small.dedup();
    let js = serde_json::to_string(&r).unwrap();
    let jb: Option<Receipt> = serde_json::from_str(&js).ok();
    json!({"v": rc_to(&r), "acc": acc(&r), "size": n, "bytes": hex(&bytes), "back": back, "used": used, "over": over, "small": small,
           "json": jb.as_ref().map(rc_to).unwrap_or(json!("none")),
           "eqSelf": r == r.clone(), "hashSelf": crate::ops::hash_of(&r) == crate::ops::hash_of(&r.clone())})
}

pub fn rdecode(c: &mut Value) -> Value {
    let b = gb(c, "bytes");
    let mut z = Receipt::ret(Default::default(), 0, 0, 0);
    let (r, peak) = peak_of(|| guarded(|| z.write(&b)));
    let peak = peak.min(1 << 30);
    match r {
        Ok(Ok(n)) => {
            let mut y = z.clone();
            let re = obs(|| json!(hex(&y.to_bytes())));
            let back = match re.as_str() { Some(h) => { let b2 = unhex(h); obs(|| match Receipt::from_bytes(&b2) { Ok(q) => json!({"r": "ok", "v": rc_to(&q)}), Err(_) => json!({"r": "err"}) }) } None => json!({"r": "err"}) };
            json!({"r": "ok", "n": n, "v": rc_to(&z), "re": re, "back": back, "alloc": peak, "size": z.serialized_size()})
        }
        Ok(Err(_)) => json!({"r": "err", "alloc": peak}),
        Err(m) => json!({"r": "panic", "m": m, "alloc": peak}),
    }
}
