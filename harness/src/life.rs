//! Histories: sequences of operations on one transaction (lifecycle) or builder.

use crate::common::{metered, offs};
use crate::ops::{checked_to, cmeta_to, hash_of, tx_of};
use crate::proj::*;
use crate::{guarded, key, obs};
use fuel_tx::field::{
    BytecodeLength, BytecodeWitnessIndex, GasLimit, GasPrice, Inputs, Maturity, Outputs, ReceiptsRoot, Salt as SaltField,
    Script as ScriptField, ScriptData, StorageSlots, TxPointer as TxPointerField, Witnesses,
};
use fuel_tx::{
    Buildable, Cacheable, CheckError, Checkable, Checked, CheckedMetadata, CheckedTransaction, Create, Executable, IntoChecked,
    Mint, Script, Signable, Transaction, TransactionBuilder, UniqueIdentifier, Witness,
};
use fuel_types::bytes::{Deserializable, SerializableVec};
use fuel_types::{AssetId, Bytes32, Salt};
use serde_json::{json, Value};

enum St {
    Bare(Transaction),
    /// Checked<Transaction>
    CE(Checked<Transaction>),
    CS(Checked<Script>),
    CC(Checked<Create>),
    CM(Checked<Mint>),
    CX(CheckedTransaction),
    Gone,
}

fn set(t: &mut Transaction, f: &str, v: &Value) {
    macro_rules! common {
        ($t:expr) => {
            match f {
                "price" => *$t.gas_price_mut() = unw(v),
                "limit" => *$t.gas_limit_mut() = unw(v),
                "maturity" => *$t.maturity_mut() = unw(v),
                "inputs" => *$t.inputs_mut() = v.as_array().unwrap().iter().map(input_from).collect(),
                "outputs" => *$t.outputs_mut() = v.as_array().unwrap().iter().map(output_from).collect(),
                "wits" => *$t.witnesses_mut() = v.as_array().unwrap().iter().map(|x| Witness::from(unhex(x.as_str().unwrap()))).collect(),
                _ => panic!("harness: field {f}"),
            }
        };
    }
    match t {
        Transaction::Script(t) => match f {
            "script" => *t.script_mut() = unhex(v.as_str().unwrap()),
            "data" => *t.script_data_mut() = unhex(v.as_str().unwrap()),
            "rroot" => *t.receipts_root_mut() = Bytes32::from(arr32(&unhex(v.as_str().unwrap()))),
            _ => common!(t),
        },
        Transaction::Create(t) => match f {
            "bcl" => *t.bytecode_length_mut() = unw(v),
            "bwi" => *t.bytecode_witness_index_mut() = v.as_u64().unwrap() as u8,
            "salt" => *t.salt_mut() = Salt::from(arr32(&unhex(v.as_str().unwrap()))),
            "slots" => *t.storage_slots_mut() = v.as_array().unwrap().iter().map(slot_from).collect(),
            _ => common!(t),
        },
        Transaction::Mint(t) => match f {
            "ptr" => *t.tx_pointer_mut() = ptr_from(v),
            "outputs" => *t.outputs_mut() = v.as_array().unwrap().iter().map(output_from).collect(),
            _ => panic!("harness: field {f}"),
        },
    }
}

fn bare_obs(t: &Transaction) -> Value {
    json!({"st": "bare", "tx": tx_to(t), "cached": t.is_computed(), "id": hex(t.id().as_ref())})
}

fn st_obs(s: &St) -> Value {
    let v = |t: &Transaction, m: Value, c: u32, k: &str| {
        json!({"st": "checked", "form": k, "tx": tx_to(t), "cached": t.is_computed(), "id": hex(t.id().as_ref()), "meta": m, "checks": c})
    };
    match s {
        St::Bare(t) => bare_obs(t),
        St::CE(c) => v(c.transaction(), cmeta_to(c.metadata()), c.checks().bits(), "enum"),
        St::CS(c) => v(&c.transaction().clone().into(), cmeta_to(&CheckedMetadata::from(c.metadata().clone())), c.checks().bits(), "script"),
        St::CC(c) => v(&c.transaction().clone().into(), cmeta_to(&CheckedMetadata::from(c.metadata().clone())), c.checks().bits(), "create"),
        St::CM(c) => v(&c.transaction().clone().into(), json!({"k": "mint"}), c.checks().bits(), "mint"),
        St::CX(x) => {
            let c: Checked<Transaction> = x.clone().into();
            let mut o = checked_to(&c);
            o["st"] = json!("checked");
            o["form"] = json!("checkedEnum");
            o["cached"] = json!(c.transaction().is_computed());
            o["id"] = json!(hex(c.transaction().id().as_ref()));
            o
        }
        St::Gone => json!({"st": "gone"}),
    }
}

fn with_exec(t: &mut Transaction, f: impl Fn(&mut dyn FnMut(&str)), g: &str) {
    let _ = f;
    match t {
        Transaction::Script(t) => match g {
            "prepScript" => { t.prepare_init_script(); }
            "prepPred" => { t.prepare_init_predicate(); }
            _ => {}
        },
        Transaction::Create(t) => match g {
            "prepScript" => { t.prepare_init_script(); }
            "prepPred" => { t.prepare_init_predicate(); }
            _ => {}
        },
        Transaction::Mint(_) => {}
    }
}

fn step(st: St, s: &Value) -> (St, Value) {
    let kind = gs(s, "s").to_string();
    let ok = || json!({"r": "ok"});
    let res = |r: Result<St, CheckError>| match r {
        Ok(x) => (x, json!({"r": "ok"})),
        Err(e) => (St::Gone, json!({"r": "err", "err": err_to(&e)})),
    };
    match st {
        St::Bare(mut t) => match kind.as_str() {
            "set" => { set(&mut t, gs(s, "f"), g(s, "v")); (St::Bare(t), ok()) }
            "precompute" => { t.precompute(); (St::Bare(t), ok()) }
            "sign" => {
                let k = key(gw(s, "key"));
                match &mut t {
                    Transaction::Script(t) => t.sign_inputs(&k),
                    Transaction::Create(t) => t.sign_inputs(&k),
                    Transaction::Mint(_) => panic!("harness: mint is not signable"),
                }
                (St::Bare(t), ok())
            }
            "prepScript" | "prepPred" => { with_exec(&mut t, |_| {}, &kind); (St::Bare(t), ok()) }
            "clone" => {
                let q = t.clone();
                let same = q == t && hash_of(&q) == hash_of(&t) && q.is_computed() == t.is_computed();
                (St::Bare(q), json!({"r": "ok", "same": same}))
            }
            "reencode" => {
                let b = t.clone().to_bytes();
                match Transaction::from_bytes(&b) {
                    Ok(q) => { let eq = q == t; (St::Bare(q), json!({"r": "ok", "same": eq, "bytes": hex(&b)})) }
                    Err(_) => (St::Gone, json!({"r": "err"})),
                }
            }
            "json" => match Transaction::from_json(t.to_json()) {
                Some(q) => { let eq = q == t; (St::Bare(q), json!({"r": "ok", "same": eq})) }
                None => (St::Gone, json!({"r": "err"})),
            },
            "offs" => { let o = json!({"r": "ok", "offs": offs(&t), "metered": metered(&t)}); (St::Bare(t), o) }
            "checkSig" => { let v = verdict(&t.check_signatures()); (St::Bare(t), v) }
            "checkWs" => { let v = verdict(&t.check_without_signatures(gw(s, "height"), &params_from(g(s, "params")))); (St::Bare(t), v) }
            "check" => { let v = verdict(&t.check(gw(s, "height"), &params_from(g(s, "params")))); (St::Bare(t), v) }
            "into" | "intoBasic" => {
                let (h, p) = (gw(s, "height"), params_from(g(s, "params")));
                let basic = kind == "intoBasic";
                macro_rules! go { ($t:expr, $c:path) => { res(if basic { $t.into_checked_basic(h, &p).map($c) } else { $t.into_checked(h, &p).map($c) }) } }
                if gs(s, "form") == "enum" {
                    go!(t, St::CE)
                } else {
                    match t {
                        Transaction::Script(t) => go!(t, St::CS),
                        Transaction::Create(t) => go!(t, St::CC),
                        Transaction::Mint(t) => go!(t, St::CM),
                    }
                }
            }
            k => panic!("harness: step {k} on a bare transaction"),
        },
        St::Gone => (St::Gone, json!({"r": "gone"})),
        c => match kind.as_str() {
            "checkSigs" => match c {
                St::CE(c) => res(c.check_signatures().map(St::CE)),
                St::CS(c) => res(c.check_signatures().map(St::CS)),
                St::CC(c) => res(c.check_signatures().map(St::CC)),
                St::CM(c) => res(c.check_signatures().map(St::CM)),
                St::CX(CheckedTransaction::Script(c)) => res(c.check_signatures().map(|c| St::CX(c.into()))),
                St::CX(CheckedTransaction::Create(c)) => res(c.check_signatures().map(|c| St::CX(c.into()))),
                St::CX(CheckedTransaction::Mint(c)) => res(c.check_signatures().map(|c| St::CX(c.into()))),
                _ => unreachable!(),
            },
            "toChecked" => (match c {
                // to the enum of checked variants
                St::CE(c) => St::CX(c.into()),
                St::CS(c) => St::CX(c.into()),
                St::CC(c) => St::CX(c.into()),
                St::CM(c) => St::CX(c.into()),
                x => x,
            }, ok()),
            "toEnum" => (match c {
                // to Checked<Transaction>
                St::CX(c) => St::CE(c.into()),
                St::CS(c) => St::CE(CheckedTransaction::from(c).into()),
                St::CC(c) => St::CE(CheckedTransaction::from(c).into()),
                St::CM(c) => St::CE(CheckedTransaction::from(c).into()),
                x => x,
            }, ok()),
            "toVariant" => {
                let x: CheckedTransaction = match c {
                    St::CX(c) => c,
                    St::CE(c) => c.into(),
                    St::CS(c) => c.into(),
                    St::CC(c) => c.into(),
                    St::CM(c) => c.into(),
                    _ => unreachable!(),
                };
                (match x { CheckedTransaction::Script(c) => St::CS(c), CheckedTransaction::Create(c) => St::CC(c), CheckedTransaction::Mint(c) => St::CM(c) }, ok())
            }
            "clone" => (match c { St::CE(c) => St::CE(c.clone()), St::CS(c) => St::CS(c.clone()), St::CC(c) => St::CC(c.clone()), St::CM(c) => St::CM(c.clone()), St::CX(c) => St::CX(c.clone()), x => x }, ok()),
            "inner" => {
                let (t, m): (Transaction, Value) = match c {
                    St::CE(c) => { let (t, m): (Transaction, CheckedMetadata) = c.into(); (t, cmeta_to(&m)) }
                    St::CS(c) => { let (t, m) = <(Script, <Script as IntoChecked>::Metadata)>::from(c); (t.into(), cmeta_to(&m.into())) }
                    St::CC(c) => { let (t, m) = <(Create, <Create as IntoChecked>::Metadata)>::from(c); (t.into(), cmeta_to(&m.into())) }
                    St::CM(c) => { let (t, _) = <(Mint, ())>::from(c); (t.into(), json!({"k": "mint"})) }
                    St::CX(c) => { let c: Checked<Transaction> = c.into(); let (t, m): (Transaction, CheckedMetadata) = c.into(); (t, cmeta_to(&m)) }
                    _ => unreachable!(),
                };
                (St::Bare(t), json!({"r": "ok", "meta": m}))
            }
            "asRef" => {
                let v = match &c {
                    St::CE(c) => { let a: &Transaction = c.as_ref(); let b: &Transaction = std::borrow::Borrow::borrow(c); json!({"r": "ok", "same": a == b && a == c.transaction()}) }
                    St::CS(c) => { let a: &Script = c.as_ref(); let b: &Script = std::borrow::Borrow::borrow(c); json!({"r": "ok", "same": a == b && a == c.transaction()}) }
                    _ => json!({"r": "ok", "same": true}),
                };
                (c, v)
            }
            "offs" => {
                let t: Transaction = match &c {
                    St::CE(c) => c.transaction().clone(),
                    St::CS(c) => c.transaction().clone().into(),
                    St::CC(c) => c.transaction().clone().into(),
                    St::CM(c) => c.transaction().clone().into(),
                    St::CX(c) => Checked::<Transaction>::from(c.clone()).transaction().clone(),
                    _ => unreachable!(),
                };
                (c, json!({"r": "ok", "offs": offs(&t), "metered": metered(&t)}))
            }
            k => panic!("harness: step {k} on a checked transaction"),
        },
    }
}

/// Replaces symbolic parts of a new field value by what they stand for.
fn resolve(ev: &mut Value) {
    let v = match gs(ev, "f") {
        "inputs" => Value::Array(ga(ev, "v").iter().map(|x| input_to(&input_from(x))).collect()),
        "outputs" => Value::Array(ga(ev, "v").iter().map(|x| output_to(&output_from(x))).collect()),
        _ => return,
    };
    ev["v"] = v;
}

pub fn life(c: &mut Value) -> Value {
    let tx = tx_of(g(c, "tx"));
    c["tx"] = tx_to(&tx);
    let mut st = St::Bare(tx);
    let mut tr = vec![json!({"res": {"r": "init"}, "st": st_obs(&st)})];
    for s in ga(c, "steps") {
        // steps that do not fit the state the history has reached are skipped (and not recorded)
        let fits = match &st {
            St::Gone => false,
            St::Bare(t) => match gs(s, "s") {
                "checkSigs" | "toChecked" | "toEnum" | "toVariant" | "inner" | "asRef" => false,
                "sign" | "prepScript" | "prepPred" => !t.is_mint(),
                _ => true,
            },
            _ => matches!(gs(s, "s"), "offs" | "checkSigs" | "toChecked" | "toEnum" | "toVariant" | "inner" | "asRef" | "clone"),
        };
        if !fits {
            continue;
        }
        let taken = std::mem::replace(&mut st, St::Gone);
        let mut ev = s.clone();
        if gs(s, "s") == "sign" {
            ev["owner"] = json!(hex(crate::key_owner(gw(s, "key")).as_ref()));
        }
        match guarded(|| { let (n, r) = step(taken, s); let o = st_obs(&n); (n, r, o) }) {
            Ok((n, r, o)) => {
                st = n;
                if gs(s, "s") == "set" {
                    resolve(&mut ev);
                }
                ev["res"] = r;
                ev["st"] = o;
                tr.push(ev);
            }
            Err(m) => {
                ev["res"] = json!({"r": "panic", "m": m});
                ev["st"] = json!({"st": "gone"});
                tr.push(ev);
                break;
            }
        }
    }
    json!({"tr": tr})
}

enum B {
    S(TransactionBuilder<Script>),
    C(TransactionBuilder<Create>),
    M(TransactionBuilder<Mint>),
}

fn common_step<T: Buildable>(b: &mut TransactionBuilder<T>, s: &Value) -> bool {
    match gs(s, "s") {
        "price" => { b.gas_price(gw(s, "v")); }
        "limit" => { b.gas_limit(gw(s, "v")); }
        "maturity" => { b.maturity(gw(s, "v")); }
        "input" => { b.add_input(input_from(g(s, "v"))); }
        "witness" => { b.add_witness(Witness::from(gb(s, "v"))); }
        "coin" => { b.add_unsigned_coin_input(key(gw(s, "key")), utxo_from(g(s, "utxo")), gw(s, "amount"), AssetId::from(g32(s, "asset")), ptr_from(g(s, "ptr")), gw(s, "maturity")); }
        "message" => { b.add_unsigned_message_input(key(gw(s, "key")), addr_from(s, "sender"), gw(s, "nonce"), gw(s, "amount"), gb(s, "data")); }
        "prepScript" => { b.prepare_script(g(s, "v").as_bool().unwrap()); }
        "prepPred" => { b.prepare_predicate(g(s, "v").as_bool().unwrap()); }
        // finished, result left aside, and used again
        "finish" => { if g(s, "v").as_bool().unwrap() { b._finalize(); } else { b._finalize_without_signature(); } }
        _ => return false,
    }
    true
}

pub fn build(c: &mut Value) -> Value {
    let mut b = match gs(c, "kind") {
        "script" => B::S(TransactionBuilder::script(gb(c, "script"), gb(c, "data"))),
        "create" => B::C(TransactionBuilder::create(Witness::from(gb(c, "bytecode")), Salt::from(g32(c, "salt")), list_from(c, "slots", slot_from))),
        "mint" => B::M(TransactionBuilder::mint(gw(c, "h") as u32, gw(c, "i") as u16)),
        k => panic!("harness: builder {k}"),
    };
    let mut sizes = Vec::new();
    // the address of each key, computed independently of the code under test
    for s in c["steps"].as_array_mut().unwrap() {
        if s.get("key").is_some() {
            s["owner"] = json!(hex(crate::key_owner(gw(s, "key")).as_ref()));
        }
        if gs(s, "s") == "input" {
            s["v"] = input_to(&input_from(g(s, "v")));
        }
        if s.get("sender").is_some() {
            s["sender"] = json!(hex(addr_from(s, "sender").as_ref()));
        }
        if gs(s, "s") == "finish" {
            s["def"] = tx_to(&match &b { B::S(_) => Script::default().into(), B::C(_) => Create::default().into(), B::M(_) => Mint::default().into() });
        }
    }
    for s in ga(c, "steps") {
        macro_rules! outp { ($b:expr) => { if gs(s, "s") == "output" { $b.add_output(output_from(g(s, "v"))); true } else { false } } }
        let done = match &mut b {
            B::S(b) => outp!(b) || common_step(b, s),
            B::C(b) => outp!(b) || common_step(b, s),
            B::M(b) => if gs(s, "s") == "finish" { if g(s, "v").as_bool().unwrap() { b.finalize(); } else { b.finalize_without_signature(); } true } else { outp!(b) },
        };
        if !done { panic!("harness: builder step {s}") }
        sizes.push(match &b { B::S(b) => json!([b.inputs().len(), b.outputs().len(), b.witnesses().len(), b.sign_keys().len()]),
                              B::C(b) => json!([b.inputs().len(), b.outputs().len(), b.witnesses().len(), b.sign_keys().len()]),
                              B::M(_) => json!([]) });
    }
    let fin = gs(c, "fin").to_string();
    let h = gw(c, "height");
    let p = params_from(g(c, "params"));
    // a failed check is a panic ("failed to check tx"), by contract of finalize_checked
    let bare_obs = |t: &Transaction| { let mut o = bare_obs(t); o["offs"] = offs(t); o["metered"] = json!(metered(t)); o };
    let chk = |r: (Transaction, u32)| { let mut o = bare_obs(&r.0); o["r"] = json!("ok"); o["checks"] = json!(r.1); o };
    macro_rules! fin {
        ($b:expr) => {
            match fin.as_str() {
                "sign" => { let t: Transaction = $b.finalize().into(); let mut o = bare_obs(&t); o["r"] = json!("ok"); o["sig"] = obs(|| verdict(&t.check_signatures())); o }
                "signTx" => { let t: Transaction = $b.finalize_as_transaction(); let mut o = bare_obs(&t); o["r"] = json!("ok"); o["sig"] = obs(|| verdict(&t.check_signatures())); o }
                "bare" => { let t: Transaction = $b.finalize_without_signature().into(); let mut o = bare_obs(&t); o["r"] = json!("ok"); o }
                "bareTx" => { let t: Transaction = $b.finalize_without_signature_as_transaction(); let mut o = bare_obs(&t); o["r"] = json!("ok"); o }
                "checked" => chk({ let c = $b.finalize_checked(h, &p); (c.transaction().clone().into(), c.checks().bits()) }),
                "basic" => chk({ let c = $b.finalize_checked_basic(h, &p); (c.transaction().clone().into(), c.checks().bits()) }),
                f => panic!("harness: fin {f}"),
            }
        };
    }
    let o = obs(|| match &mut b { B::S(b) => fin!(b), B::C(b) => fin!(b), B::M(b) => fin!(b) });
    let owners = |ks: &[fuel_crypto::SecretKey]| -> Vec<String> { ks.iter().map(|k| hex(fuel_tx::Input::owner(&k.public_key()).as_ref())).collect() };
    let keys = match &b { B::S(b) => owners(b.sign_keys()), B::C(b) => owners(b.sign_keys()), B::M(_) => vec![] };
    json!({"fin": o, "sizes": sizes, "keys": keys})
}
