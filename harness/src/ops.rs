use crate::common::*;
use crate::proj::*;
use crate::{guarded, key, obs, peak_of};
use fuel_crypto::{Message, Signature};
use fuel_tx::field::{
    BytecodeLength, BytecodeWitnessIndex, GasLimit, GasPrice, Inputs, Maturity, Outputs, ReceiptsRoot, Salt as SaltField,
    Script as ScriptField, ScriptData, StorageSlots, Witnesses,
};
use fuel_tx::{
    Cacheable, Chargeable, Checkable, Checked, CheckedMetadata, CheckedTransaction, ConsensusParameters, Contract, Create,
    Executable, Input, InputRepr, IntoChecked, Mint, Output, OutputRepr, Receipt, Script, StorageSlot, Transaction,
    TransactionFee, TxPointer, UniqueIdentifier, UtxoId, Witness,
};
use fuel_types::bytes::{Deserializable, SerializableVec, SizedBytes};
use fuel_types::{Bytes32, Bytes64, Salt};
use serde_json::{json, Value};
use std::io::{Read, Write};
use std::str::FromStr;

pub fn run(op: &str, c: &mut Value) -> Value {
    match op {
        "check" => check(c),
        "ident" => ident(c),
        "idpair" => idpair(c),
        "codec" => codec(c),
        "decode" => decode(c),
        "offsets" => offsets(c),
        "fee" => fee(c),
        "prep" => prep(c),
        "contract" => contract(c),
        "derive" => derive(c),
        "views" => views(c),
        "access" => access(c),
        "reprs" => reprs(),
        "order" => order(c),
        "relate" => crate::rel::relate(c),
        "serde" => crate::rel::serde_case(c),
        "defaults" => crate::rel::defaults(),
        "bulk" => bulk(c),
        "text" => text(c),
        "format" => format_case(c),
        "json" => json_case(c),
        "params" => params_case(c),
        "receipt" => crate::rcpt::receipt(c),
        "rdecode" => crate::rcpt::rdecode(c),
        "life" => crate::life::life(c),
        "build" => crate::life::build(c),
        "twin" => {
            let tx = tx_of(g(c, "tx"));
            c["tx"] = tx_to(&tx);
            json!({"std": summary(c, &tx)})
        }
        _ => panic!("harness: unknown op {op}"),
    }
}


/// Resolves symbolic witnesses: {"sig": key} signs this transaction's id, {"sig": key, "msg": hex}
/// signs something else, "flip": byte index to corrupt, "cut"/"ext": change of length.
pub fn tx_of(v: &Value) -> Transaction {
    let mut tx = tx_from(v);
    if gs(v, "k") == "mint" {
        return tx;
    }
    let wits = ga(v, "wits");
    if wits.iter().all(|w| w.is_string()) {
        return tx;
    }
    let id = tx.id();
    for (i, wv) in wits.iter().enumerate() {
        if wv.is_string() {
            continue;
        }
        let msg: Bytes32 = match wv.get("msg") {
            Some(Value::String(s)) => Bytes32::from(arr32(&unhex(s))),
            _ => id,
        };
        let m = unsafe { Message::as_ref_unchecked(msg.as_ref()) };
        let s = Signature::sign(&key(gw(wv, "sig")), m);
        let mut b: Vec<u8> = AsRef::<[u8]>::as_ref(&s).to_vec();
        if let Some(f) = wv.get("flip") {
            let f = f.as_u64().unwrap() as usize;
            b[f % 64] ^= 1 << (f / 64 % 8);
        }
        if let Some(n) = wv.get("cut") {
            b.truncate(64 - n.as_u64().unwrap() as usize);
        }
        if let Some(n) = wv.get("ext") {
            b.extend(std::iter::repeat(0).take(n.as_u64().unwrap() as usize));
        }
        set_wit(&mut tx, i, b);
    }
    tx
}

fn set_wit(tx: &mut Transaction, i: usize, b: Vec<u8>) {
    match tx {
        Transaction::Script(t) => t.witnesses_mut()[i] = b.into(),
        Transaction::Create(t) => t.witnesses_mut()[i] = b.into(),
        _ => {}
    }
}

macro_rules! meta_to {
    ($m:expr) => {
        json!({"height": w($m.block_height), "fee": fee_to(&$m.fee),
               "bal": $m.initial_free_balances.iter().map(|(a, x)| json!({"a": hex(a.as_ref()), "x": w(*x)})).collect::<Vec<_>>()})
    };
}

pub fn cmeta_to(m: &CheckedMetadata) -> Value {
    match m {
        CheckedMetadata::Script(m) => { let mut v = meta_to!(m); v["k"] = json!("script"); v }
        CheckedMetadata::Create(m) => { let mut v = meta_to!(m); v["k"] = json!("create"); v }
        CheckedMetadata::Mint(()) => json!({"k": "mint"}),
    }
}

pub fn checked_to(c: &Checked<Transaction>) -> Value {
    json!({"tx": tx_to(c.transaction()), "meta": cmeta_to(c.metadata()), "checks": c.checks().bits()})
}

/// All check entry points on one transaction.
fn check(c: &mut Value) -> Value {
    let tx = tx_of(g(c, "tx"));
    c["tx"] = tx_to(&tx);
    let p = params_from(g(c, "params"));
    let h = gw(c, "height");
    let what = c.get("what").and_then(|x| x.as_str()).unwrap_or("ws").to_string();
    let mut o = serde_json::Map::new();
    let on = |k: &str| what == "all" || what.split(',').any(|x| x == k);
    o.insert("id".into(), obs(|| json!(hex(tx.id().as_ref()))));
    if on("ws") {
        o.insert("ws".into(), obs(|| verdict(&tx.check_without_signatures(h, &p))));
    }
    if on("var") {
        // the same through the variant, with and without an up-to-date cache, and repeated
        o.insert("wsVar".into(), obs(|| match &tx {
            Transaction::Script(t) => verdict(&t.check_without_signatures(h, &p)),
            Transaction::Create(t) => verdict(&t.check_without_signatures(h, &p)),
            Transaction::Mint(t) => verdict(&t.check_without_signatures(h, &p)),
        }));
        o.insert("sigVar".into(), obs(|| match &tx {
            Transaction::Script(t) => verdict(&t.check_signatures()),
            Transaction::Create(t) => verdict(&t.check_signatures()),
            Transaction::Mint(t) => verdict(&t.check_signatures()),
        }));
        let mut pre = tx.clone();
        o.insert("precompute".into(), obs(|| { pre.precompute(); json!({"r": "ok"}) }));
        o.insert("wsPre".into(), obs(|| verdict(&pre.check_without_signatures(h, &p))));
        o.insert("sigPre".into(), obs(|| verdict(&pre.check_signatures())));
        o.insert("fullPre".into(), obs(|| verdict(&pre.check(h, &p))));
        let re = guarded(|| Transaction::from_bytes(&tx.clone().to_bytes()));
        if let Ok(Ok(re)) = re {
            o.insert("wsRe".into(), obs(|| verdict(&re.check_without_signatures(h, &p))));
            o.insert("sigRe".into(), obs(|| verdict(&re.check_signatures())));
            o.insert("re".into(), tx_to(&re));
        }
        // other transactions in between (a text, so that the recorded case stays as given): no matter
        if let Some(b) = c.get("between").and_then(|x| x.as_str()) {
            for t in serde_json::from_str::<Vec<Value>>(b).expect("between") {
                let t = tx_of(&t);
                let _ = guarded(|| { let _ = (t.id(), t.check_without_signatures(h, &p), t.check_signatures()); });
                let _ = guarded(|| t.check(h, &p).is_ok());
                let _ = guarded(|| t.clone().into_checked(h, &p).is_ok());
                let _ = guarded(|| t.check(h.wrapping_add(1), &ConsensusParameters::DEFAULT).is_ok());
            }
        }
        o.insert("ws2".into(), obs(|| verdict(&tx.check_without_signatures(h, &p))));
        o.insert("sig2".into(), obs(|| verdict(&tx.check_signatures())));
        o.insert("after".into(), tx_to(&tx));
        o.insert("afterPre".into(), tx_to(&pre));
        o.insert("variant".into(), obs(|| match tx.clone() {
            Transaction::Script(t) => both_checked(t, h, &p, |c| json!({"k": "script", "m": meta_to!(c.metadata())})),
            Transaction::Create(t) => both_checked(t, h, &p, |c| json!({"k": "create", "m": meta_to!(c.metadata())})),
            Transaction::Mint(t) => both_checked(t, h, &p, |_| json!({"k": "mint"})),
        }));
        // predicate-only and per-input checks
        if let Some(ins) = inputs_of(&tx) {
            let outs = outputs_of(&tx);
            let wits = wits_of(&tx);
            let id = tx.id();
            o.insert("perInput".into(), Value::Array(ins.iter().enumerate().map(|(i, x)| json!({
                "ws": obs(|| verdict(&x.check_without_signature(i, outs, wits, &p))),
                "sig": obs(|| verdict(&x.check_signature(i, &id, wits))),
                "full": obs(|| verdict(&x.check(i, &id, outs, wits, &p)))})).collect()));
            o.insert("perOutput".into(), Value::Array(outs.iter().enumerate().map(|(i, x)| obs(|| verdict(&x.check(i, ins)))).collect()));
        }
    }
    if on("sig") {
        o.insert("sig".into(), obs(|| verdict(&tx.check_signatures())));
    }
    if on("full") {
        o.insert("full".into(), obs(|| verdict(&tx.check(h, &p))));
    }
    if on("basic") {
        o.insert("basic".into(), obs(|| {
            let r = tx.clone().into_checked_basic(h, &p);
            let mut v = verdict(&r);
            if let Ok(c) = &r {
                v["c"] = checked_to(c);
                v["id"] = json!(hex(c.transaction().id().as_ref()));
                v["cached"] = json!(c.transaction().is_computed());
            }
            if let Ok(c) = r {
                let r2 = c.check_signatures();
                let mut v2 = verdict(&r2);
                if let Ok(c) = &r2 {
                    v2["c"] = checked_to(c);
                }
                v["then"] = v2;
            }
            v
        }));
    }
    if on("into") {
        o.insert("into".into(), obs(|| {
            let r = tx.clone().into_checked(h, &p);
            let mut v = verdict(&r);
            if let Ok(c) = &r {
                v["c"] = checked_to(c);
                v["eq"] = json!(c.transaction() == &tx);
            }
            v
        }));
    }
    Value::Object(o)
}

fn both_checked<T: IntoChecked + Clone + Into<Transaction>>(t: T, h: u64, p: &ConsensusParameters, f: impl Fn(&Checked<T>) -> Value) -> Value
where
    CheckedTransaction: From<Checked<T>>,
{
    let b = t.clone().into_checked_basic(h, p);
    let mut v = json!({"basic": verdict(&b)});
    if let Ok(c) = &b {
        v["basic"]["info"] = f(c);
        v["basic"]["checks"] = json!(c.checks().bits());
    }
    let b = t.into_checked(h, p);
    v["into"] = verdict(&b);
    if let Ok(c) = b {
        v["into"]["info"] = f(&c);
        v["into"]["checks"] = json!(c.checks().bits());
        let e: CheckedTransaction = c.into();
        let e: Checked<Transaction> = e.into();
        v["into"]["asEnum"] = checked_to(&e);
    }
    v
}

fn ident(c: &mut Value) -> Value {
    let tx = tx_of(g(c, "tx"));
    c["tx"] = tx_to(&tx);
    let e = tx.id();
    let v = match &tx {
        Transaction::Script(t) => t.id(),
        Transaction::Create(t) => t.id(),
        Transaction::Mint(t) => t.id(),
    };
    let mut pre = tx.clone();
    pre.precompute();
    json!({"id": hex(e.as_ref()), "idVar": hex(v.as_ref()), "idPre": hex(pre.id().as_ref()), "idAgain": hex(tx.id().as_ref()), "after": tx_to(&tx)})
}

/// Two transactions whose relation (same canonical content or not) the specification decides.
fn idpair(c: &mut Value) -> Value {
    let a = tx_of(g(c, "a"));
    let b = tx_of(g(c, "b"));
    c["a"] = tx_to(&a);
    c["b"] = tx_to(&b);
    let (mut pa, mut pb) = (a.clone(), b.clone());
    pa.precompute();
    pb.precompute();
    json!({"a": hex(a.id().as_ref()), "b": hex(b.id().as_ref()), "pa": hex(pa.id().as_ref()), "pb": hex(pb.id().as_ref())})
}

/// Values of every kind, for decoding into a target that already holds something.
fn some_inputs() -> Vec<Input> {
    let (u, p) = (UtxoId::new([7; 32].into(), 9), TxPointer::new(5, 6));
    vec![
        Input::coin_signed(u, [1; 32].into(), 2, [3; 32].into(), p, 4, 5),
        Input::coin_predicate(u, [1; 32].into(), 2, [3; 32].into(), p, 5, vec![6; 9], vec![7; 17]),
        Input::contract(u, [1; 32].into(), [2; 32].into(), p, [3; 32].into()),
        Input::message_signed([1; 32].into(), [2; 32].into(), [3; 32].into(), 4, 5, 6, vec![7; 11]),
        Input::message_predicate([1; 32].into(), [2; 32].into(), [3; 32].into(), 4, 5, vec![6; 3], vec![7; 8], vec![8; 5]),
    ]
}
fn some_outputs() -> Vec<Output> {
    vec![
        Output::coin([1; 32].into(), 2, [3; 32].into()),
        Output::contract(4, [5; 32].into(), [6; 32].into()),
        Output::message([1; 32].into(), 2),
        Output::change([1; 32].into(), 2, [3; 32].into()),
        Output::variable([1; 32].into(), 2, [3; 32].into()),
        Output::contract_created([1; 32].into(), [2; 32].into()),
    ]
}
fn some_script() -> Script {
    let mut t = Transaction::script(1, 2, 3, vec![4; 13], vec![5; 3], some_inputs(), some_outputs(), vec![vec![6; 5].into(), vec![].into()]);
    *t.receipts_root_mut() = [9; 32].into();
    t.precompute();
    t
}
fn some_create() -> Create {
    let slots = vec![StorageSlot::new([1; 32].into(), [2; 32].into()), StorageSlot::new([3; 32].into(), [4; 32].into())];
    let mut t = Transaction::create(1, 2, 3, 1, [5; 32].into(), slots, some_inputs(), some_outputs(), vec![vec![6; 5].into(), vec![7; 12].into()]);
    t.precompute();
    t
}
fn some_mint() -> Mint {
    let mut t = Transaction::mint(TxPointer::new(5, 6), some_outputs());
    t.precompute();
    t
}

/// `over`: what the target of a decoding may hold before.
fn overs<T>(bytes: &[u8], over: Vec<T>, to: &impl Fn(&T) -> Value, also: impl Fn(&T) -> Value) -> Value
where
    T: Write + SerializableVec + Clone,
{
    let each: Vec<Value> = over.into_iter().map(|mut t| match guarded(|| t.write(bytes)) {
        Ok(Ok(n)) => {
            // there is nothing to flush: the value stays what was decoded
            match guarded(|| t.flush()) { Ok(Ok(())) => {} Ok(Err(_)) => return json!({"r": "err"}), Err(m) => return json!({"r": "panic", "m": m}) }
            let re = match guarded(|| t.clone().to_bytes()) { Ok(b) => hex(&b), Err(_) => "panic".into() };
            json!({"r": "ok", "n": n, "v": to(&t), "also": also(&t), "re": re})
        }
        Ok(Err(_)) => json!({"r": "err"}),
        Err(m) => json!({"r": "panic", "m": m}),
    }).collect();
    let mut seen: Vec<Value> = Vec::new();
    for e in each { if !seen.contains(&e) { seen.push(e) } }
    json!(seen)
}
fn cache_of<T: Cacheable + UniqueIdentifier>(t: &T) -> Value {
    json!({"comp": t.is_computed(), "id": hex(t.id().as_ref())})
}
fn nothing<T>(_: &T) -> Value { json!({}) }

fn codec_one<T>(x: T, to: impl Fn(&T) -> Value, dirty: bool, over: Vec<T>, also: impl Fn(&T) -> Value) -> Value
where
    T: SizedBytes + SerializableVec + Deserializable + Read + Write + Clone + Default,
{
    let mut y = x.clone();
    let n = x.serialized_size();
    let bytes = y.to_bytes();
    let back = guarded(|| T::from_bytes(&bytes));
    let mut trail = bytes.clone();
    trail.extend_from_slice(&[0xab; 24]);
    let mut z = T::default();
    let used = guarded(|| z.write(&trail));
    let mut o = json!({"size": n, "bytes": hex(&bytes), "after": to(&y)});
    o["back"] = match back {
        Ok(Ok(b)) => json!({"r": "ok", "v": to(&b)}),
        Ok(Err(_)) => json!({"r": "err"}),
        Err(m) => json!({"r": "panic", "m": m}),
    };
    o["trail"] = match used {
        Ok(Ok(n)) => json!({"r": "ok", "n": n, "v": to(&z)}),
        Ok(Err(_)) => json!({"r": "err"}),
        Err(m) => json!({"r": "panic", "m": m}),
    };
    // and decoded over other values
    o["over"] = overs(&bytes, over, &to, also);
    // reading into a buffer of every smaller size (sampled) fails cleanly
    let mut small = Vec::new();
    let mut sizes: Vec<usize> = vec![0, 1, 7, 8, n / 2, n.saturating_sub(9), n.saturating_sub(8), n.saturating_sub(1)];
    sizes.retain(|s| *s < n);
    sizes.dedup();
    for s in sizes {
        let r = guarded(|| x.clone().read(&mut vec![0u8; s]));
        small.push(match r { Ok(Ok(_)) => "ok", Ok(Err(_)) => "err", Err(_) => "panic" });
    }
    small.sort();
    small.dedup();
    o["small"] = json!(small);
    if dirty {
        // a larger, non-zeroed buffer: exactly the first size bytes are written
        let mut b = vec![0xcd; n + 16];
        let r = guarded(|| x.clone().read(&mut b));
        o["dirty"] = match r {
            Ok(Ok(k)) => json!({"r": "ok", "n": k, "bytes": hex(&b[..n]), "rest": hex(&b[n..])}),
            Ok(Err(_)) => json!({"r": "err"}),
            Err(m) => json!({"r": "panic", "m": m}),
        };
    }
    o
}

fn codec(c: &mut Value) -> Value {
    let v = g(c, "v").clone();
    match gs(c, "ty") {
        "tx" => {
            let tx = tx_of(&v);
            c["v"] = tx_to(&tx);
            let mut o = codec_one(tx.clone(), tx_to, true, vec![some_script().into(), some_create().into(), some_mint().into()], cache_of);
            // the same value through its variant type
            let b = match tx {
                Transaction::Script(t) => codec_one(t, script_to, false, vec![some_script()], cache_of),
                Transaction::Create(t) => codec_one(t, create_to, false, vec![some_create()], cache_of),
                Transaction::Mint(t) => codec_one(t, mint_to, false, vec![some_mint()], cache_of),
            };
            o["var"] = b;
            o
        }
        "input" => { let x = input_from(&v); c["v"] = input_to(&x); codec_one(x, input_to, true, some_inputs(), nothing) }
        "output" => codec_one(output_from(&v), output_to, true, some_outputs(), nothing),
        "witness" => codec_one(Witness::from(unhex(v.as_str().unwrap())), wit_to, true, vec![vec![1; 3].into(), vec![2; 16].into(), vec![3; 100].into()], nothing),
        "slot" => codec_one(slot_from(&v), slot_to, true, vec![StorageSlot::new([1; 32].into(), [2; 32].into())], nothing),
        "utxo" => codec_one(utxo_from(&v), utxo_to, true, vec![UtxoId::new([1; 32].into(), 255)], nothing),
        "ptr" => codec_one(ptr_from(&v), ptr_to, true, vec![TxPointer::new(u32::MAX, 77)], nothing),
        t => panic!("harness: codec type {t}"),
    }
}

fn decode_one<T>(b: &[u8], to: impl Fn(&T) -> Value, size: impl Fn(&T) -> usize) -> Value
where
    T: SerializableVec + Deserializable + Write + Default + Clone + PartialEq,
{
    let ((r, n), peak) = {
        let mut z = T::default();
        let (r, peak) = peak_of(|| guarded(|| z.write(b)));
        (match r {
            Ok(Ok(n)) => (Ok(Some(z)), n),
            Ok(Err(_)) => (Ok(None), 0),
            Err(m) => (Err(m), 0),
        }, peak)
    };
    let peak = peak.min(1 << 30);
    let mut o = match r {
        Err(m) => return json!({"r": "panic", "m": m, "alloc": peak}),
        Ok(None) => json!({"r": "err", "alloc": peak}),
        Ok(Some(z)) => {
            let mut o = json!({"r": "ok", "n": n, "alloc": peak, "v": to(&z), "size": size(&z)});
            let mut y = z.clone();
            o["re"] = obs(|| json!(hex(&y.to_bytes())));
            if let Some(h) = o["re"].as_str() {
                let b2 = unhex(h);
                o["back"] = obs(|| match T::from_bytes(&b2) { Ok(q) => json!({"r": "ok", "v": to(&q)}), Err(_) => json!({"r": "err"}) });
            }
            o
        }
    };
    // the convenience constructor must agree with the stream form
    o["fb"] = match guarded(|| T::from_bytes(b).map(|q| to(&q))) {
        Ok(Ok(v)) => json!({"r": "ok", "v": v}),
        Ok(Err(_)) => json!({"r": "err"}),
        Err(m) => json!({"r": "panic", "m": m}),
    };
    o
}

fn decode(c: &mut Value) -> Value {
    let b = gb(c, "bytes");
    match gs(c, "ty") {
        "tx" => {
            let mut o = decode_one::<Transaction>(&b, tx_to, |t| t.serialized_size());
            o["tfb"] = match guarded(|| Transaction::try_from_bytes(&b).map(|(n, q)| (n, tx_to(&q)))) {
                Ok(Ok((n, v))) => json!({"r": "ok", "n": n, "v": v}),
                Ok(Err(_)) => json!({"r": "err"}),
                Err(m) => json!({"r": "panic", "m": m}),
            };
            o
        }
        "script" => decode_one::<Script>(&b, script_to, |t| t.serialized_size()),
        "create" => decode_one::<Create>(&b, create_to, |t| t.serialized_size()),
        "mint" => decode_one::<Mint>(&b, mint_to, |t| t.serialized_size()),
        "input" => decode_one::<Input>(&b, input_to, |t| t.serialized_size()),
        "output" => decode_one::<Output>(&b, output_to, |t| t.serialized_size()),
        "witness" => decode_one::<Witness>(&b, wit_to, |t| t.serialized_size()),
        "slot" => decode_one::<StorageSlot>(&b, slot_to, |t| t.serialized_size()),
        "utxo" => decode_one::<UtxoId>(&b, utxo_to, |t| t.serialized_size()),
        "ptr" => decode_one::<TxPointer>(&b, ptr_to, |t| t.serialized_size()),
        t => panic!("harness: decode type {t}"),
    }
}

fn offsets(c: &mut Value) -> Value {
    let tx = tx_of(g(c, "tx"));
    c["tx"] = tx_to(&tx);
    let mut pre = tx.clone();
    pre.precompute();
    let ins: Value = match inputs_of(&tx) {
        Some(i) => i.iter().map(|x| json!({"pred": on(x.predicate_offset()), "pdata": on(x.predicate_data_offset())})).collect(),
        None => json!([]),
    };
    json!({"bytes": hex(&tx.clone().to_bytes()), "size": tx.serialized_size(), "bare": offs(&tx), "pre": offs(&pre),
           "ins": ins, "metered": metered(&tx), "meteredPre": metered(&pre),
           "bytesPre": hex(&pre.clone().to_bytes()), "sizePre": pre.serialized_size()})
}

fn fee(c: &mut Value) -> Value {
    let p = params_from(g(c, "params"));
    let mut o = serde_json::Map::new();
    if c.get("bytes").is_some() {
        let (b, l, pr) = (gw(c, "bytes"), gw(c, "limit"), gw(c, "price"));
        o.insert("fee".into(), obs(|| match TransactionFee::checked_from_values(&p, b, l, pr) {
            Some(f) => {
                let mut v = fee_to(&f);
                v["r"] = json!("ok");
                let (a, t) = f.into_inner();
                v["inner"] = json!([w(a), w(t)]);
                v["word"] = json!(w(u64::from(f)));
                let bal = gw(c, "balance");
                v["deduct"] = match f.checked_deduct_total(bal) { Some(x) => json!(w(x)), None => json!("none") };
                v
            }
            None => json!({"r": "none"}),
        }));
        o.insert("refund".into(), obs(|| match TransactionFee::gas_refund_value(&p, l, pr) {
            Some(x) => json!({"r": "ok", "x": w(x)}),
            None => json!({"r": "none"}),
        }));
    }
    if c.get("tx").is_some() {
        let tx = tx_of(g(c, "tx"));
        c["tx"] = tx_to(&tx);
        o.insert("metered".into(), json!(metered(&tx)));
        let mut pre = tx.clone();
        pre.precompute();
        o.insert("meteredPre".into(), json!(metered(&pre)));
        o.insert("txfee".into(), obs(|| {
            let r = match &tx {
                Transaction::Script(t) => { assert_eq!((t.price(), t.limit()), (*t.gas_price(), *t.gas_limit())); TransactionFee::checked_from_tx(&p, t) }
                Transaction::Create(t) => TransactionFee::checked_from_tx(&p, t),
                Transaction::Mint(_) => panic!("harness: mint has no fee"),
            };
            match r { Some(f) => { let mut v = fee_to(&f); v["r"] = json!("ok"); v } None => json!({"r": "none"}) }
        }));
    }
    Value::Object(o)
}

fn prep(c: &mut Value) -> Value {
    let tx = tx_of(g(c, "tx"));
    c["tx"] = tx_to(&tx);
    let go = |which: &str, t: &mut Transaction| match (which, t) {
        ("script", Transaction::Script(t)) => { t.prepare_init_script(); }
        ("script", Transaction::Create(t)) => { t.prepare_init_script(); }
        ("predicate", Transaction::Script(t)) => { t.prepare_init_predicate(); }
        ("predicate", Transaction::Create(t)) => { t.prepare_init_predicate(); }
        _ => panic!("harness: prep"),
    };
    let mut o = json!({"id": hex(tx.id().as_ref())});
    for k in ["script", "predicate"] {
        let mut t = tx.clone();
        go(k, &mut t);
        o[k] = tx_to(&t);
        o[format!("{k}Id")] = json!(hex(t.id().as_ref()));
        go(k, &mut t);
        o[format!("{k}Twice")] = tx_to(&t);
    }
    let mut t = tx.clone();
    go("predicate", &mut t);
    go("script", &mut t);
    o["both"] = tx_to(&t);
    // the per-item forms
    let ins: Vec<Value> = inputs_of(&tx).unwrap().iter().map(|i| { let mut i = i.clone(); i.prepare_init_predicate(); input_to(&i) }).collect();
    let outs: Vec<Value> = outputs_of(&tx).iter().map(|i| { let mut i = i.clone(); i.prepare_init_predicate(); output_to(&i) }).collect();
    let outs2: Vec<Value> = outputs_of(&tx).iter().map(|i| { let mut i = i.clone(); i.prepare_init_script(); output_to(&i) }).collect();
    o["ins"] = json!(ins);
    o["outs"] = json!(outs);
    o["outsScript"] = json!(outs2);
    o
}

fn contract(c: &mut Value) -> Value {
    let code = gb(c, "code");
    let slots = list_from(c, "slots", slot_from);
    let salt = Salt::from(g32(c, "salt"));
    let k = Contract::from(code.clone());
    let root = k.root();
    let sr = Contract::initial_state_root(slots.iter());
    let mut rev = slots.clone();
    rev.reverse();
    let id = k.id(&salt, &root, &sr);
    let mut o = json!({"code": hex(k.as_ref()), "root": hex(root.as_ref()), "root2": hex(Contract::root_from_code(&code).as_ref()),
           "sroot": hex(sr.as_ref()), "srootRev": hex(Contract::initial_state_root(rev.iter()).as_ref()),
           "droot": hex(Contract::default_state_root().as_ref()), "id": hex(id.as_ref())});
    let mut other = code.clone();
    let mut m = Contract::from(&mut other[..]);
    o["ways"] = json!([hex(Contract::from(&code[..]).as_ref()), hex(m.as_ref()), hex(&Vec::from(m.clone())), hex(m.as_mut()), hex(m.root().as_ref())]);
    m.as_mut().fill(0x47);
    o["filled"] = json!([hex(m.as_ref()), hex(m.root().as_ref())]);
    if let Some(t) = c.get("tx") {
        let tx = tx_of(t);
        let tx_v = tx_to(&tx);
        let code = |r: Result<Contract, _>| match r { Ok(x) => json!({"r": "ok", "code": hex(x.as_ref())}), Err::<_, fuel_tx::CheckError>(_) => json!({"r": "err"}) };
        o["fromEnum"] = obs(|| code(Contract::try_from(&tx)));
        if let Transaction::Create(t) = &tx {
            o["from"] = obs(|| code(Contract::try_from(t)));
        }
        c["tx"] = tx_v;
    }
    o
}

fn derive(c: &mut Value) -> Value {
    let (s, r) = (addr_from(c, "sender"), addr_from(c, "recipient"));
    let (n, a, ix) = (gw(c, "nonce"), gw(c, "amount"), gw(c, "idx"));
    let data = gb(c, "data");
    let txid = Bytes32::from(g32(c, "txid"));
    let n32 = Bytes32::from(g32(c, "nonce32"));
    let pred = gb(c, "pred");
    let po = Input::predicate_owner(&pred);
    let other = addr_from(c, "owner");
    let okey = ["sender", "recipient", "owner"];
    for k in okey {
        let a = addr_from(c, k);
        c[k] = json!(hex(a.as_ref()));
    }
    let rc = Receipt::message_out_from_tx_output(&txid, ix, s, r, a, data.clone());
    json!({"mid": hex(Input::compute_message_id(&s, &r, n, a, &data).as_ref()),
           "omid": hex(Output::message_id(&s, &r, &n32, a, &data).as_ref()),
           "ononce": hex(Output::message_nonce(&txid, ix).as_ref()),
           "digest": hex(Output::message_digest(&data).as_ref()),
           "powner": hex(po.as_ref()), "pvalid": Input::is_predicate_owner_valid(&po, &pred), "pother": Input::is_predicate_owner_valid(&other, &pred),
           "keyowner": hex(Input::owner(&fuel_crypto::PublicKey::from(&key(gw(c, "key")))).as_ref()),
           "pk": hex(AsRef::<[u8]>::as_ref(&fuel_crypto::PublicKey::from(&key(gw(c, "key"))))),
           "rmid": hex(rc.message_id().unwrap().as_ref()), "rnonce": hex(rc.nonce().unwrap().as_ref()), "rdigest": hex(rc.digest().unwrap().as_ref())})
}

fn views(c: &mut Value) -> Value {
    let tx = tx_of(g(c, "tx"));
    c["tx"] = tx_to(&tx);
    fn go<T: Executable>(t: &T) -> Value {
        json!({"assets": t.input_asset_ids().map(|a| hex(a.as_ref())).collect::<Vec<_>>(),
               "unique": t.input_asset_ids_unique().map(|a| hex(a.as_ref())).collect::<Vec<_>>(),
               "contracts": t.input_contracts().map(|a| hex(a.as_ref())).collect::<Vec<_>>(),
               "predOwners": t.check_predicate_owners()})
    }
    match &tx {
        Transaction::Script(t) => go(t),
        Transaction::Create(t) => go(t),
        _ => panic!("harness: views of mint"),
    }
}

pub fn oh<T: AsRef<[u8]>>(x: Option<T>) -> Value {
    match x { Some(x) => json!(hex(x.as_ref())), None => json!("none") }
}
pub fn ow(x: Option<u64>) -> Value {
    match x { Some(x) => json!(w(x)), None => json!("none") }
}
fn ov(x: Option<Value>) -> Value {
    x.unwrap_or(json!("none"))
}

fn rebuild_input(i: &Input) -> Input {
    match i.clone() {
        Input::CoinSigned { utxo_id, owner, amount, asset_id, tx_pointer, witness_index, maturity } =>
            Input::coin_signed(utxo_id, owner, amount, asset_id, tx_pointer, witness_index, maturity),
        Input::CoinPredicate { utxo_id, owner, amount, asset_id, tx_pointer, maturity, predicate, predicate_data } =>
            Input::coin_predicate(utxo_id, owner, amount, asset_id, tx_pointer, maturity, predicate, predicate_data),
        Input::Contract { utxo_id, balance_root, state_root, tx_pointer, contract_id } =>
            Input::contract(utxo_id, balance_root, state_root, tx_pointer, contract_id),
        Input::MessageSigned { message_id, sender, recipient, amount, nonce, witness_index, data } =>
            Input::message_signed(message_id, sender, recipient, amount, nonce, witness_index, data),
        Input::MessagePredicate { message_id, sender, recipient, amount, nonce, data, predicate, predicate_data } =>
            Input::message_predicate(message_id, sender, recipient, amount, nonce, data, predicate, predicate_data),
    }
}
fn rebuild_output(o: &Output) -> Output {
    match *o {
        Output::Coin { to, amount, asset_id } => Output::coin(to, amount, asset_id),
        Output::Change { to, amount, asset_id } => Output::change(to, amount, asset_id),
        Output::Variable { to, amount, asset_id } => Output::variable(to, amount, asset_id),
        Output::Contract { input_index, balance_root, state_root } => Output::contract(input_index, balance_root, state_root),
        Output::Message { recipient, amount } => Output::message(recipient, amount),
        Output::ContractCreated { contract_id, state_root } => Output::contract_created(contract_id, state_root),
    }
}

/// Nothing in the record is symbolic.
fn plain(v: &Value) -> bool {
    match v {
        Value::Object(m) => !m.contains_key("key") && !m.contains_key("sig") && !(m.contains_key("pred") && (m.len() == 1 || m.contains_key("near"))) && m.values().all(plain),
        Value::Array(x) => x.iter().all(plain),
        _ => true,
    }
}

/// Straight from the constructors, witnesses resolved.
fn tx_made(v: &Value) -> Transaction {
    let t = tx_to(&tx_of(v));
    let wits = || list_from(&t, "wits", |x| Witness::from(unhex(x.as_str().unwrap())));
    match gs(v, "k") {
        "script" => Transaction::script(gw(v, "price"), gw(v, "limit"), gw(v, "maturity"), gb(v, "script"), gb(v, "data"),
            list_from(&t, "inputs", input_from), list_from(&t, "outputs", output_from), wits()).into(),
        "create" => Transaction::create(gw(v, "price"), gw(v, "limit"), gw(v, "maturity"), gu8(v, "bwi"), fuel_types::Salt::from(g32(v, "salt")),
            list_from(&t, "slots", slot_from), list_from(&t, "inputs", input_from), list_from(&t, "outputs", output_from), wits()).into(),
        _ => Transaction::mint(ptr_from(g(v, "ptr")), list_from(&t, "outputs", output_from)).into(),
    }
}

/// Every field set on a default transaction.
fn tx_set(v: &Value) -> Transaction {
    match gs(v, "k") {
        "script" => {
            let mut t = Script::default();
            *t.gas_price_mut() = gw(v, "price");
            *t.gas_limit_mut() = gw(v, "limit");
            *t.maturity_mut() = gw(v, "maturity");
            *t.receipts_root_mut() = Bytes32::from(g32(v, "rroot"));
            *t.script_mut() = gb(v, "script");
            *t.script_data_mut() = gb(v, "data");
            *t.inputs_mut() = list_from(v, "inputs", input_from);
            *t.outputs_mut() = list_from(v, "outputs", output_from);
            *t.witnesses_mut() = list_from(v, "wits", |x| Witness::from(unhex(x.as_str().unwrap())));
            t.into()
        }
        "create" => {
            let mut t = Create::default();
            *t.gas_price_mut() = gw(v, "price");
            *t.gas_limit_mut() = gw(v, "limit");
            *t.maturity_mut() = gw(v, "maturity");
            *t.bytecode_length_mut() = gw(v, "bcl");
            *t.bytecode_witness_index_mut() = gu8(v, "bwi");
            *t.salt_mut() = fuel_types::Salt::from(g32(v, "salt"));
            *t.storage_slots_mut() = list_from(v, "slots", slot_from);
            *t.inputs_mut() = list_from(v, "inputs", input_from);
            *t.outputs_mut() = list_from(v, "outputs", output_from);
            *t.witnesses_mut() = list_from(v, "wits", |x| Witness::from(unhex(x.as_str().unwrap())));
            t.into()
        }
        _ => {
            let mut t = Mint::default();
            *fuel_tx::field::TxPointer::tx_pointer_mut(&mut t) = ptr_from(g(v, "ptr"));
            *t.outputs_mut() = list_from(v, "outputs", output_from);
            t.into()
        }
    }
}

fn access(c: &mut Value) -> Value {
    let v = g(c, "v").clone();
    match gs(c, "ty") {
        "input" => {
            let i = input_from(&v);
            json!({"built": input_to(&rebuild_input(&i)), "repr": InputRepr::from(&i) as u64, "repr2": i.repr() as u64,
                "utxo": ov(i.utxo_id().map(utxo_to)), "owner": oh(i.input_owner()), "asset": oh(i.asset_id()), "cid": oh(i.contract_id()),
                "amount": ow(i.amount()), "wix": on(i.witness_index().map(|x| x as usize)), "maturity": ow(i.maturity()),
                "predOff": on(i.predicate_offset()), "pdataOff": on(i.predicate_data_offset()),
                "predLen": on(i.predicate_len()), "pdataLen": on(i.predicate_data_len()),
                "mid": oh(i.message_id()), "ptr": ov(i.tx_pointer().map(ptr_to)), "data": oh(i.input_data()),
                "pred": oh(i.input_predicate()), "pdata": oh(i.input_predicate_data()),
                "both": match i.predicate() { Some((a, b)) => json!([hex(a), hex(b)]), None => json!([]) },
                "broot": oh(i.balance_root()), "sroot": oh(i.state_root()), "sender": oh(i.sender()), "recipient": oh(i.recipient()), "nonce": ow(i.nonce()),
                "is": {"coin": i.is_coin(), "coinSigned": i.is_coin_signed(), "coinPredicate": i.is_coin_predicate(), "message": i.is_message(),
                       "messageSigned": i.is_message_signed(), "messagePredicate": i.is_message_predicate(), "contract": i.is_contract()}})
        }
        "output" => {
            let o = output_from(&v);
            json!({"built": output_to(&rebuild_output(&o)), "repr": OutputRepr::from(&o) as u64, "repr2": o.repr() as u64,
                "asset": oh(o.asset_id()), "to": oh(o.to()), "amount": ow(o.amount()), "inix": on(o.input_index().map(|x| x as usize)),
                "broot": oh(o.balance_root()), "sroot": oh(o.state_root()), "cid": oh(o.contract_id()), "recipient": oh(o.recipient()),
                "is": {"coin": o.is_coin(), "message": o.is_message(), "variable": o.is_variable(), "contract": o.is_contract(), "created": o.is_contract_created()}})
        }
        "tx" => {
            let t = tx_of(&v);
            c["v"] = tx_to(&t);
            // the projection builds transactions from the given record, so without symbolic parts
            // both must agree, however the transaction is made
            let made = tx_made(&v);
            c["given"] = if plain(&v) { v.clone() } else { c["v"].clone() };
            let set = tx_set(&c["v"]);
            json!({"made": tx_to(&made), "set": tx_to(&set), "script": t.is_script(), "create": t.is_create(), "mint": t.is_mint(),
                   "asScript": t.as_script().map(script_to).unwrap_or(json!("none")), "asCreate": t.as_create().map(create_to).unwrap_or(json!("none")),
                   "asMint": t.as_mint().map(mint_to).unwrap_or(json!("none")),
                   "repr": fuel_tx::TransactionRepr::from(&t) as u64, "reprs": (0..4u64).map(|n| fuel_tx::TransactionRepr::try_from(n).map(|r| r as i64).unwrap_or(-1)).collect::<Vec<_>>(),
                   "mut": [t.clone().as_script_mut().is_some(), t.clone().as_create_mut().is_some(), t.clone().as_mint_mut().is_some()]})
        }
        "witness" => {
            let b = unhex(v.as_str().unwrap());
            let x = Witness::from(b.clone());
            let mut y = x.clone();
            y.as_mut().fill(0x47);
            let mut z = x.clone();
            z.as_vec_mut().push(0x99);
            let mut e = x.clone();
            e.extend(b.iter().copied());
            json!({"vec": hex(x.as_vec()), "ref": hex(x.as_ref()), "slice": wit_to(&Witness::from(&b[..])), "inner": hex(&x.clone().into_inner()),
                   "filled": wit_to(&y), "pushed": wit_to(&z), "extended": wit_to(&e), "same": x == Witness::from(b.clone()), "after": wit_to(&x)})
        }
        "slot" => {
            let x = slot_from(&v);
            let b = Bytes64::from(&x);
            json!({"key": hex(x.key().as_ref()), "value": hex(x.value().as_ref()), "flat": hex(b.as_ref()), "back": slot_to(&StorageSlot::from(&b)),
                   "same": x == StorageSlot::from(&b)})
        }
        t => panic!("harness: access type {t}"),
    }
}

/// The order of storage slots.
fn order(c: &mut Value) -> Value {
    let slots = list_from(c, "slots", slot_from);
    let mut s = slots.clone();
    s.sort();
    let sign = |o: std::cmp::Ordering| o as i32;
    let cmp: Vec<Value> = slots.iter().flat_map(|a| slots.iter().map(move |b| json!([sign(a.cmp(b)), a.partial_cmp(b).map(sign).unwrap_or(9), a == b]))).collect();
    json!({"sorted": s.iter().map(slot_to).collect::<Vec<_>>(), "cmp": cmp})
}

/// Transactions with very many equal items: one list of the given transaction is n copies of the item.
fn bulk(c: &mut Value) -> Value {
    let mut v = g(c, "tx").clone();
    let (list, n) = (gs(c, "list").to_string(), c["n"].as_u64().unwrap() as usize);
    v[&list] = json!([g(c, "item").clone()]);
    let one = tx_of(&v);
    c["tx"] = tx_to(&one);
    c["item"] = c["tx"][&list][0].clone();
    c["tx"][&list] = json!([]);
    macro_rules! grow {
        ($t:expr, $f:ident) => {{ let x = $t.$f()[0].clone(); *$t.$f() = vec![x; n]; }};
    }
    let mut tx = one;
    match (&mut tx, list.as_str()) {
        (Transaction::Script(t), "inputs") => grow!(t, inputs_mut),
        (Transaction::Script(t), "outputs") => grow!(t, outputs_mut),
        (Transaction::Script(t), "wits") => grow!(t, witnesses_mut),
        (Transaction::Create(t), "inputs") => grow!(t, inputs_mut),
        (Transaction::Create(t), "outputs") => grow!(t, outputs_mut),
        (Transaction::Create(t), "wits") => grow!(t, witnesses_mut),
        (Transaction::Create(t), "slots") => grow!(t, storage_slots_mut),
        (Transaction::Mint(t), "outputs") => grow!(t, outputs_mut),
        (_, l) => panic!("harness: bulk {l}"),
    }
    let sha = |b: &[u8]| hex(fuel_crypto::Hasher::hash(b).as_ref());
    let bytes = tx.to_bytes();
    let mut z = Transaction::default();
    let back = guarded(|| z.write(&bytes));
    let at = |i: usize| match (&tx, list.as_str()) {
        (Transaction::Script(t), "inputs") => t.inputs_offset_at(i),
        (Transaction::Script(t), "outputs") => t.outputs_offset_at(i),
        (Transaction::Script(t), "wits") => t.witnesses_offset_at(i),
        (Transaction::Create(t), "inputs") => t.inputs_offset_at(i),
        (Transaction::Create(t), "outputs") => t.outputs_offset_at(i),
        (Transaction::Create(t), "wits") => t.witnesses_offset_at(i),
        (Transaction::Create(t), "slots") => t.storage_slots_offset_at(i),
        (Transaction::Mint(t), "outputs") => t.outputs_offset_at(i),
        _ => None,
    };
    let heads = match &tx {
        Transaction::Script(t) => json!({"inputs": t.inputs_offset(), "outputs": t.outputs_offset(), "witnesses": t.witnesses_offset()}),
        Transaction::Create(t) => json!({"inputs": t.inputs_offset(), "outputs": t.outputs_offset(), "witnesses": t.witnesses_offset()}),
        Transaction::Mint(t) => json!({"outputs": t.outputs_offset()}),
    };
    let probes = [0, 1, 254, 255, 256, 257, 65534, 65535, 65536, n - 1, n, n + 1];
    let mut o = json!({"size": tx.serialized_size(), "len": bytes.len(), "sha": sha(&bytes), "id": hex(tx.id().as_ref()), "metered": metered(&tx),
        "at": probes.iter().map(|i| json!([i, on(at(*i))])).collect::<Vec<_>>(), "heads": heads,
        "back": match back {
            Ok(Ok(k)) => { let same = z == tx; let again = z.clone().to_bytes(); json!({"r": "ok", "n": k, "same": same, "sha": sha(&again)}) }
            Ok(Err(_)) => json!({"r": "err"}),
            Err(m) => json!({"r": "panic", "m": m}),
        }});
    if c.get("params").is_some() {
        let p = params_from(g(c, "params"));
        o["ws"] = obs(|| verdict(&tx.check_without_signatures(0, &p)));
    }
    o
}

fn reprs() -> Value {
    let i = |r: InputRepr| json!({"utxo": on(r.utxo_id_offset()), "owner": on(r.owner_offset()), "asset": on(r.asset_id_offset()), "data": on(r.data_offset()),
        "coinPred": on(r.coin_predicate_offset()), "broot": on(r.contract_balance_root_offset()), "sroot": on(r.contract_state_root_offset()),
        "cid": on(r.contract_id_offset()), "mid": on(r.message_id_offset()), "sender": on(r.message_sender_offset()), "recipient": on(r.message_recipient_offset()),
        "ptr": on(r.tx_pointer_offset())});
    let o = |r: OutputRepr| json!({"to": on(r.to_offset()), "asset": on(r.asset_id_offset()), "broot": on(r.contract_balance_root_offset()),
        "sroot": on(r.contract_state_root_offset()), "csroot": on(r.contract_created_state_root_offset()), "cid": on(r.contract_id_offset()), "recipient": on(r.recipient_offset())});
    json!({"input": {"coin": i(InputRepr::Coin), "contract": i(InputRepr::Contract), "message": i(InputRepr::Message)},
           "output": {"coin": o(OutputRepr::Coin), "contract": o(OutputRepr::Contract), "message": o(OutputRepr::Message), "change": o(OutputRepr::Change),
                      "variable": o(OutputRepr::Variable), "created": o(OutputRepr::ContractCreated)},
           "coinPredicateOffset": Input::coin_predicate_offset(), "messageDataOffset": Input::message_data_offset(),
           "utxoLen": UtxoId::LEN, "ptrLen": TxPointer::LEN, "slotLen": StorageSlot::SLOT_SIZE})
}

fn text(c: &mut Value) -> Value {
    let s = match c.get("utf8") { Some(Value::String(h)) => String::from_utf8(unhex(h)).expect("harness: utf8"), _ => gs(c, "s").to_string() };
    c["chars"] = Value::Array(s.chars().map(|ch| if ch.is_ascii() && !ch.is_ascii_control() && ch != '"' && ch != '\\' { json!(ch.to_string()) } else { json!("?") }).collect());
    json!({"utxo": obs(|| match UtxoId::from_str(&s) { Ok(u) => json!({"r": "ok", "v": utxo_to(&u)}), Err(_) => json!({"r": "err"}) }),
           "ptr": obs(|| match TxPointer::from_str(&s) { Ok(u) => json!({"r": "ok", "v": ptr_to(&u)}), Err(_) => json!({"r": "err"}) }),
           "json": obs(|| match Transaction::from_json(&s) { Some(_) => json!({"r": "ok"}), None => json!({"r": "err"}) })})
}

fn format_case(c: &mut Value) -> Value {
    let u = utxo_from(g(c, "utxo"));
    let p = ptr_from(g(c, "ptr"));
    let pu = |s: String| { let b = match UtxoId::from_str(&s) { Ok(x) => utxo_to(&x), Err(_) => json!("err") }; json!({"s": s, "back": b}) };
    let pp = |s: String| { let b = match TxPointer::from_str(&s) { Ok(x) => ptr_to(&x), Err(_) => json!("err") }; json!({"s": s, "back": b}) };
    let urep = { let mut q = u; q.replace_tx_id(Bytes32::from([7u8; 32])); utxo_to(&q) };
    let ju = serde_json::to_string(&u).unwrap();
    let jp = serde_json::to_string(&p).unwrap();
    json!({"ul": pu(format!("{u:x}")), "uu": pu(format!("{u:X}")), "ual": pu(format!("{u:#x}")), "uau": pu(format!("{u:#X}")),
           "pl": pp(format!("{p:x}")), "pu": pp(format!("{p:X}")),
           "uget": {"id": hex(u.tx_id().as_ref()), "ix": u.output_index()}, "pget": {"h": w(p.block_height() as u64), "i": w(p.tx_index() as u64)},
           "unew": utxo_to(&UtxoId::new(*u.tx_id(), u.output_index())),
           "urep": urep,
           "ju": utxo_to(&serde_json::from_str::<UtxoId>(&ju).unwrap()), "jp": ptr_to(&serde_json::from_str::<TxPointer>(&jp).unwrap())})
}

fn json_case(c: &mut Value) -> Value {
    let tx = tx_of(g(c, "tx"));
    c["tx"] = tx_to(&tx);
    let s = tx.to_json();
    let mut pre = tx.clone();
    pre.precompute();
    let back = Transaction::from_json(&s);
    json!({"back": match &back { Some(t) => tx_to(t), None => json!("none") }, "eq": back.as_ref() == Some(&tx), "cached": back.map(|b| b.is_computed()).unwrap_or(true),
           "samePre": pre.to_json() == s, "eqPre": pre == tx, "hashPre": hash_of(&pre) == hash_of(&tx),
           "parsed": serde_json::from_str::<Value>(&s).is_ok(),
           "cut": s.char_indices().map(|x| x.0).step_by(1 + s.len() / 16).skip(1).all(|i| Transaction::from_json(&s[..i]).is_none())})
}
pub fn hash_of<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn params_case(c: &mut Value) -> Value {
    let mut p = if c.get("init").is_some() { params_from(g(c, "init")) } else { ConsensusParameters::default() };
    let mut tr = vec![params_to(&p)];
    for s in ga(c, "steps") {
        let x = gw(s, "x");
        p = match gs(s, "f") {
            "contractMaxSize" => p.with_contract_max_size(x),
            "maxInputs" => p.with_max_inputs(x),
            "maxOutputs" => p.with_max_outputs(x),
            "maxWitnesses" => p.with_max_witnesses(x),
            "maxGasPerTx" => p.with_max_gas_per_tx(x),
            "maxScriptLength" => p.with_max_script_length(x),
            "maxScriptDataLength" => p.with_max_script_data_length(x),
            "maxStorageSlots" => p.with_max_storage_slots(x),
            "maxPredicateLength" => p.with_max_predicate_length(x),
            "maxPredicateDataLength" => p.with_max_predicate_data_length(x),
            "gasPriceFactor" => p.with_gas_price_factor(x),
            "gasPerByte" => p.with_gas_per_byte(x),
            "maxMessageDataLength" => p.with_max_message_data_length(x),
            f => panic!("harness: param {f}"),
        };
        tr.push(params_to(&p));
    }
    let js = serde_json::to_string(&p).unwrap();
    let back: ConsensusParameters = serde_json::from_str(&js).unwrap();
    let empty: ConsensusParameters = serde_json::from_str("{}").unwrap();
    // each one left out of the JSON form, and each one alone
    let whole: serde_json::Map<String, Value> = serde_json::from_str(&js).unwrap();
    let read = |m: &serde_json::Map<String, Value>| match serde_json::from_str::<ConsensusParameters>(&serde_json::to_string(m).unwrap()) {
        Ok(p) => params_to(&p),
        Err(e) => json!({"r": e.to_string()}),
    };
    let (mut without, mut alone) = (json!({}), json!({}));
    for k in whole.keys() {
        let f: String = k.split('_').enumerate().map(|(i, s)| if i == 0 { s.to_string() } else { s[..1].to_uppercase() + &s[1..] }).collect();
        let mut m = whole.clone();
        m.remove(k);
        without[&f] = read(&m);
        alone[&f] = read(&[(k.clone(), whole[k].clone())].into_iter().collect());
    }
    #[allow(deprecated)]
    let dp = {
        use fuel_tx::default_parameters as d;
        json!({"contractMaxSize": w(d::CONTRACT_MAX_SIZE), "maxInputs": w(d::MAX_INPUTS), "maxOutputs": w(d::MAX_OUTPUTS), "maxWitnesses": w(d::MAX_WITNESSES),
               "maxGasPerTx": w(d::MAX_GAS_PER_TX), "maxScriptLength": w(d::MAX_SCRIPT_LENGTH), "maxScriptDataLength": w(d::MAX_SCRIPT_DATA_LENGTH),
               "maxStorageSlots": w(d::MAX_STORAGE_SLOTS), "maxPredicateLength": w(d::MAX_PREDICATE_LENGTH), "maxPredicateDataLength": w(d::MAX_PREDICATE_DATA_LENGTH),
               "gasPriceFactor": w(d::GAS_PRICE_FACTOR), "gasPerByte": w(d::GAS_PER_BYTE), "maxMessageDataLength": w(d::MAX_MESSAGE_DATA_LENGTH)})
    };
    json!({"tr": tr, "json": params_to(&back), "jsonEmpty": params_to(&empty), "without": without, "alone": alone, "default": params_to(&ConsensusParameters::DEFAULT), "default2": params_to(&ConsensusParameters::default()),
           "legacy": dp, "txOffset": if p.max_inputs < 1 << 20 { json!(p.tx_offset()) } else { json!(-1) }})
}
