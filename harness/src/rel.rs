//! Equality, hashing and ordering of values; their serde forms; default values.
use crate::ops::{checked_to, hash_of, tx_of};
use crate::proj::*;
use crate::rcpt;
use fuel_tx::{Cacheable, Checked, CheckedTransaction, ConsensusParameters, Contract, Create, Input, IntoChecked, Mint, Output, Script,
    StorageSlot, Transaction, TransactionFee, TxPointer, UtxoId, Witness};
use serde_json::{json, Value};
use std::hash::Hash;

fn rel<T: PartialEq + Hash + Clone>(a: &T, b: &T) -> Value {
    json!({"eq": a == b, "ne": a != b, "rev": b == a, "self": *a == a.clone() && *b == b.clone(), "hash": hash_of(a) == hash_of(b),
           "selfHash": hash_of(a) == hash_of(&a.clone())})
}
fn ord<T: PartialEq + Hash + Clone + Ord>(a: &T, b: &T) -> Value {
    let mut o = rel(a, b);
    let s = |x: std::cmp::Ordering| x as i32;
    o["cmp"] = json!([s(a.cmp(b)), a.partial_cmp(b).map(s).unwrap_or(9), -s(b.cmp(a))]);
    o["lt"] = json!([a < b, a <= b, a > b, a >= b]);
    o
}
fn fee_from(v: &Value) -> TransactionFee {
    TransactionFee::new(gw(v, "min"), gw(v, "total"), gw(v, "minGas"), gw(v, "maxGas"))
}
fn fee_out(f: &TransactionFee) -> Value {
    json!({"min": w(f.min()), "total": w(f.total()), "minGas": w(f.min_gas()), "maxGas": w(f.max_gas())})
}

pub fn relate(c: &mut Value) -> Value {
    let (a, b) = (g(c, "a").clone(), g(c, "b").clone());
    match gs(c, "ty") {
        "tx" => {
            let (x, y) = (tx_of(&a), tx_of(&b));
            c["a"] = tx_to(&x);
            c["b"] = tx_to(&y);
            let mut o = rel(&x, &y);
            let (mut px, mut py) = (x.clone(), y.clone());
            px.precompute();
            py.precompute();
            o["pre"] = json!([px == y, x == py, px == py, y == px]);
            o["preHash"] = json!([hash_of(&px) == hash_of(&x), hash_of(&py) == hash_of(&y)]);
            o["var"] = match (&x, &y) {
                (Transaction::Script(p), Transaction::Script(q)) => rel(p, q),
                (Transaction::Create(p), Transaction::Create(q)) => rel(p, q),
                (Transaction::Mint(p), Transaction::Mint(q)) => rel(p, q),
                _ => json!("none"),
            };
            o
        }
        "checked" => {
            let h = |v: &Value| (tx_of(g(v, "tx")), gw(v, "height"), params_from(g(v, "params")), v["full"] == json!(true));
            let go = |v: &Value| { let (t, h, p, full) = h(v); if full { t.into_checked(h, &p) } else { t.into_checked_basic(h, &p) } };
            match (go(&a), go(&b)) {
                (Ok(x), Ok(y)) => {
                    let mut o = rel(&x, &y);
                    o["a"] = checked_to(&x);
                    o["b"] = checked_to(&y);
                    o["meta"] = rel(x.metadata(), y.metadata());
                    let (x, y): (CheckedTransaction, CheckedTransaction) = (x.into(), y.into());
                    o["enum"] = rel(&x, &y);
                    o
                }
                _ => json!({"none": true}),
            }
        }
        "input" => {
            let (x, y) = (input_from(&a), input_from(&b));
            c["a"] = input_to(&x);
            c["b"] = input_to(&y);
            rel(&x, &y)
        }
        "output" => {
            let (x, y) = (output_from(&a), output_from(&b));
            c["a"] = output_to(&x);
            c["b"] = output_to(&y);
            rel(&x, &y)
        }
        "witness" => rel(&wit_from(&a), &wit_from(&b)),
        "contract" => rel(&Contract::from(wbytes(&a)), &Contract::from(wbytes(&b))),
        "slot" => rel(&slot_from(&a), &slot_from(&b)),
        "utxo" => ord(&utxo_from(&a), &utxo_from(&b)),
        "ptr" => ord(&ptr_from(&a), &ptr_from(&b)),
        "fee" => ord(&fee_from(&a), &fee_from(&b)),
        "params" => rel(&params_from(&a), &params_from(&b)),
        "receipt" => {
            rcpt::settle(&mut c["a"]);
            rcpt::settle(&mut c["b"]);
            rel(&rcpt::build(&c["a"]), &rcpt::build(&c["b"]))
        }
        t => panic!("harness: relate {t}"),
    }
}
fn wbytes(v: &Value) -> Vec<u8> {
    unhex(v.as_str().expect("harness: bytes"))
}
fn wit_from(v: &Value) -> Witness {
    Witness::from(wbytes(v))
}

/// Through JSON text and a binary format that is not self-describing.
fn forms<T: serde::Serialize + serde::de::DeserializeOwned + PartialEq>(x: &T, to: impl Fn(&T) -> Value) -> Value {
    let show = |r: Option<T>| match r { Some(y) => json!({"v": to(&y), "eq": &y == x}), None => json!("none") };
    let text = serde_json::to_string(x).ok();
    let bin = bincode::serialize(x).ok();
    json!({"text": show(text.as_ref().and_then(|s| serde_json::from_str(s).ok())), "pretty": show(serde_json::to_string_pretty(x).ok().and_then(|s| serde_json::from_str(&s).ok())), "bin": show(bin.as_ref().and_then(|b| bincode::deserialize(b).ok()))})
}

pub fn serde_case(c: &mut Value) -> Value {
    let v = g(c, "v").clone();
    match gs(c, "ty") {
        "tx" => {
            let x = tx_of(&v);
            c["v"] = tx_to(&x);
            let mut o = forms(&x, tx_to);
            let mut p = x.clone();
            p.precompute();
            o["pre"] = forms(&p, |t| json!([tx_to(t), t.is_computed()]));
            o["var"] = match &x {
                Transaction::Script(t) => forms(t, script_to),
                Transaction::Create(t) => forms(t, create_to),
                Transaction::Mint(t) => forms(t, mint_to),
            };
            o
        }
        "input" => { let x = input_from(&v); c["v"] = input_to(&x); forms(&x, input_to) }
        "output" => { let x = output_from(&v); c["v"] = output_to(&x); forms(&x, output_to) }
        "witness" => forms(&wit_from(&v), wit_to),
        "contract" => forms(&Contract::from(wbytes(&v)), |x| json!(hex(x.as_ref()))),
        "slot" => forms(&slot_from(&v), slot_to),
        "utxo" => forms(&utxo_from(&v), utxo_to),
        "ptr" => forms(&ptr_from(&v), ptr_to),
        "fee" => forms(&fee_from(&v), fee_out),
        "params" => forms(&params_from(&v), params_to),
        "receipt" => { rcpt::settle(&mut c["v"]); forms(&rcpt::build(&c["v"]), rcpt::rc_to) }
        t => panic!("harness: serde {t}"),
    }
}

/// Default values, and the default checked transactions (feature "internals").
pub fn defaults() -> Value {
    fn one<T: IntoChecked + Default + Clone + Into<Transaction> + PartialEq>() -> Value
    where
        CheckedTransaction: From<Checked<T>>,
    {
        let t = T::default();
        let tx = tx_to(&t.clone().into());
        let mut o = crate::obs(|| {
            let d = Checked::<T>::default();
            let same = d.transaction() == &t && d.as_ref() == &t;
            let e: CheckedTransaction = d.into();
            let e: Checked<Transaction> = e.into();
            json!({"same": same, "c": checked_to(&e)})
        });
        o["tx"] = tx;
        o
    }
    let e = Checked::<Transaction>::default();
    json!({"each": [one::<Script>(), one::<Create>(), one::<Mint>(),
             {"tx": tx_to(&Transaction::default()), "same": e.transaction() == &Transaction::default(), "c": checked_to(&e)}],
           "items": {"input": input_to(&Input::default()), "output": output_to(&Output::default()), "witness": wit_to(&Witness::default()),
                     "slot": slot_to(&StorageSlot::default()), "utxo": utxo_to(&UtxoId::default()), "ptr": ptr_to(&TxPointer::default()),
                     "fee": fee_out(&TransactionFee::default()), "contract": hex(Contract::default().as_ref())},
           "checks": {"bits": e.checks().bits(), "all": e.checks().is_all(), "rest": e.checks().complement().is_empty()},
           "params": params_to(&ConsensusParameters::default())})
}
