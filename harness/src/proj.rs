//! Projection between real fuel-tx values and the JSON records the TLA+ specification works on.
//!
//! Conventions: byte strings are lowercase hex strings; 64-bit words (and wider-than-u8 numbers)
//! are 16-digit hex strings; u8 fields and lengths are JSON integers.

use fuel_tx::field::{
    BytecodeLength as _, BytecodeWitnessIndex as _, GasLimit as _, GasPrice as _, Inputs as _, Maturity as _, Outputs as _,
    ReceiptsRoot as _, Salt as _, Script as _, ScriptData as _, StorageSlots as _, Witnesses as _,
};
use fuel_tx::{
    CheckError, ConsensusParameters, Create, Input, Mint, Output, Script, StorageSlot, Transaction, TxPointer, UtxoId, Witness,
};
use fuel_types::{Address, AssetId, Bytes32, ContractId, MessageId, Salt};
use serde_json::{json, Map, Value};

pub type V = Value;

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(char::from_digit((x >> 4) as u32, 16).unwrap());
        s.push(char::from_digit((x & 15) as u32, 16).unwrap());
    }
    s
}

pub fn unhex(s: &str) -> Vec<u8> {
    assert!(s.len() % 2 == 0, "harness: odd hex {s}");
    let v = |c: u8| (c as char).to_digit(16).unwrap_or_else(|| panic!("harness: bad hex {s}")) as u8;
    s.as_bytes().chunks(2).map(|c| v(c[0]) << 4 | v(c[1])).collect()
}

pub fn w(x: u64) -> String {
    format!("{x:016x}")
}

pub fn unw(v: &V) -> u64 {
    match v {
        V::String(s) => u64::from_str_radix(s, 16).expect("harness: word"),
        V::Number(n) => n.as_u64().expect("harness: word"),
        _ => panic!("harness: word expected, got {v}"),
    }
}

pub fn g<'a>(v: &'a V, k: &str) -> &'a V {
    v.get(k).unwrap_or_else(|| panic!("harness: missing field {k} in {v}"))
}
pub fn gs<'a>(v: &'a V, k: &str) -> &'a str {
    g(v, k).as_str().unwrap_or_else(|| panic!("harness: {k} not a string in {v}"))
}
pub fn gb(v: &V, k: &str) -> Vec<u8> {
    unhex(gs(v, k))
}
pub fn gw(v: &V, k: &str) -> u64 {
    unw(g(v, k))
}
pub fn gu8(v: &V, k: &str) -> u8 {
    g(v, k).as_u64().expect("harness: u8") as u8
}
pub fn ga<'a>(v: &'a V, k: &str) -> &'a Vec<V> {
    g(v, k).as_array().unwrap_or_else(|| panic!("harness: {k} not an array in {v}"))
}
pub fn arr32(b: &[u8]) -> [u8; 32] {
    let mut r = [0u8; 32];
    r.copy_from_slice(b);
    r
}
pub fn g32(v: &V, k: &str) -> [u8; 32] {
    arr32(&gb(v, k))
}

pub fn ptr_to(p: &TxPointer) -> V {
    json!({"h": w(p.block_height() as u64), "i": w(p.tx_index() as u64)})
}
pub fn ptr_from(v: &V) -> TxPointer {
    TxPointer::new(gw(v, "h") as u32, gw(v, "i") as u16)
}
pub fn utxo_to(u: &UtxoId) -> V {
    json!({"id": hex(u.tx_id().as_ref()), "ix": u.output_index()})
}
pub fn utxo_from(v: &V) -> UtxoId {
    UtxoId::new(Bytes32::from(g32(v, "id")), gu8(v, "ix"))
}

/// Owners may be symbolic: {"key": n} is the address of test key n; {"pred": hex} is the address
/// of a predicate (computed by the harness' caller when it must be independent).
/// "near": n flips bit n of it.
pub fn addr_from(v: &V, k: &str) -> Address {
    let mut a = addr_of(v, k);
    if let Some(n) = g(v, k).get("near").and_then(|n| n.as_u64()) {
        a[n as usize / 8 % 32] ^= 1 << (n % 8);
    }
    a
}

fn addr_of(v: &V, k: &str) -> Address {
    match g(v, k) {
        V::String(s) => arr32(&unhex(s)).into(),
        #[cfg(feature = "withstd")]
        o if o.get("key").is_some() => crate::key_owner(gw(o, "key")),
        #[cfg(feature = "withstd")]
        o if o.get("pred").is_some() => Input::predicate_owner(gb(o, "pred")),
        o => panic!("harness: address {o}"),
    }
}

pub fn input_to(i: &Input) -> V {
    match i {
        Input::CoinSigned { utxo_id, owner, amount, asset_id, tx_pointer, witness_index, maturity } => json!({
            "t": "coinSigned", "utxo": utxo_to(utxo_id), "owner": hex(owner.as_ref()), "amount": w(*amount),
            "asset": hex(asset_id.as_ref()), "ptr": ptr_to(tx_pointer), "wix": witness_index, "maturity": w(*maturity)}),
        Input::CoinPredicate { utxo_id, owner, amount, asset_id, tx_pointer, maturity, predicate, predicate_data } => json!({
            "t": "coinPredicate", "utxo": utxo_to(utxo_id), "owner": hex(owner.as_ref()), "amount": w(*amount),
            "asset": hex(asset_id.as_ref()), "ptr": ptr_to(tx_pointer), "maturity": w(*maturity),
            "pred": hex(predicate), "pdata": hex(predicate_data)}),
        Input::Contract { utxo_id, balance_root, state_root, tx_pointer, contract_id } => json!({
            "t": "contract", "utxo": utxo_to(utxo_id), "broot": hex(balance_root.as_ref()),
            "sroot": hex(state_root.as_ref()), "ptr": ptr_to(tx_pointer), "cid": hex(contract_id.as_ref())}),
        Input::MessageSigned { message_id, sender, recipient, amount, nonce, witness_index, data } => json!({
            "t": "messageSigned", "mid": hex(message_id.as_ref()), "sender": hex(sender.as_ref()),
            "recipient": hex(recipient.as_ref()), "amount": w(*amount), "nonce": w(*nonce), "wix": witness_index,
            "data": hex(data)}),
        Input::MessagePredicate { message_id, sender, recipient, amount, nonce, data, predicate, predicate_data } => json!({
            "t": "messagePredicate", "mid": hex(message_id.as_ref()), "sender": hex(sender.as_ref()),
            "recipient": hex(recipient.as_ref()), "amount": w(*amount), "nonce": w(*nonce), "data": hex(data),
            "pred": hex(predicate), "pdata": hex(predicate_data)}),
    }
}

pub fn input_from(v: &V) -> Input {
    match gs(v, "t") {
        "coinSigned" => Input::CoinSigned {
            utxo_id: utxo_from(g(v, "utxo")), owner: addr_from(v, "owner"), amount: gw(v, "amount"),
            asset_id: AssetId::from(g32(v, "asset")), tx_pointer: ptr_from(g(v, "ptr")),
            witness_index: gu8(v, "wix"), maturity: gw(v, "maturity") },
        "coinPredicate" => Input::CoinPredicate {
            utxo_id: utxo_from(g(v, "utxo")), owner: addr_from(v, "owner"), amount: gw(v, "amount"),
            asset_id: AssetId::from(g32(v, "asset")), tx_pointer: ptr_from(g(v, "ptr")),
            maturity: gw(v, "maturity"), predicate: gb(v, "pred"), predicate_data: gb(v, "pdata") },
        "contract" => Input::Contract {
            utxo_id: utxo_from(g(v, "utxo")), balance_root: Bytes32::from(g32(v, "broot")),
            state_root: Bytes32::from(g32(v, "sroot")), tx_pointer: ptr_from(g(v, "ptr")),
            contract_id: ContractId::from(g32(v, "cid")) },
        "messageSigned" => Input::MessageSigned {
            message_id: MessageId::from(g32(v, "mid")), sender: addr_from(v, "sender"),
            recipient: addr_from(v, "recipient"), amount: gw(v, "amount"), nonce: gw(v, "nonce"),
            witness_index: gu8(v, "wix"), data: gb(v, "data") },
        "messagePredicate" => Input::MessagePredicate {
            message_id: MessageId::from(g32(v, "mid")), sender: addr_from(v, "sender"),
            recipient: addr_from(v, "recipient"), amount: gw(v, "amount"), nonce: gw(v, "nonce"),
            data: gb(v, "data"), predicate: gb(v, "pred"), predicate_data: gb(v, "pdata") },
        t => panic!("harness: input kind {t}"),
    }
}

pub fn output_to(o: &Output) -> V {
    match o {
        Output::Coin { to, amount, asset_id } => json!({"t": "coin", "to": hex(to.as_ref()), "amount": w(*amount), "asset": hex(asset_id.as_ref())}),
        Output::Change { to, amount, asset_id } => json!({"t": "change", "to": hex(to.as_ref()), "amount": w(*amount), "asset": hex(asset_id.as_ref())}),
        Output::Variable { to, amount, asset_id } => json!({"t": "variable", "to": hex(to.as_ref()), "amount": w(*amount), "asset": hex(asset_id.as_ref())}),
        Output::Contract { input_index, balance_root, state_root } => json!({"t": "contract", "inix": input_index, "broot": hex(balance_root.as_ref()), "sroot": hex(state_root.as_ref())}),
        Output::Message { recipient, amount } => json!({"t": "message", "recipient": hex(recipient.as_ref()), "amount": w(*amount)}),
        Output::ContractCreated { contract_id, state_root } => json!({"t": "created", "cid": hex(contract_id.as_ref()), "sroot": hex(state_root.as_ref())}),
    }
}

pub fn output_from(v: &V) -> Output {
    match gs(v, "t") {
        "coin" => Output::Coin { to: addr_from(v, "to"), amount: gw(v, "amount"), asset_id: AssetId::from(g32(v, "asset")) },
        "change" => Output::Change { to: addr_from(v, "to"), amount: gw(v, "amount"), asset_id: AssetId::from(g32(v, "asset")) },
        "variable" => Output::Variable { to: addr_from(v, "to"), amount: gw(v, "amount"), asset_id: AssetId::from(g32(v, "asset")) },
        "contract" => Output::Contract { input_index: gu8(v, "inix"), balance_root: Bytes32::from(g32(v, "broot")), state_root: Bytes32::from(g32(v, "sroot")) },
        "message" => Output::Message { recipient: addr_from(v, "recipient"), amount: gw(v, "amount") },
        "created" => Output::ContractCreated { contract_id: ContractId::from(g32(v, "cid")), state_root: Bytes32::from(g32(v, "sroot")) },
        t => panic!("harness: output kind {t}"),
    }
}

pub fn slot_to(s: &StorageSlot) -> V {
    json!({"k": hex(s.key().as_ref()), "v": hex(s.value().as_ref())})
}
pub fn slot_from(v: &V) -> StorageSlot {
    StorageSlot::new(Bytes32::from(g32(v, "k")), Bytes32::from(g32(v, "v")))
}

pub fn list_to<T>(xs: &[T], f: impl Fn(&T) -> V) -> V {
    V::Array(xs.iter().map(f).collect())
}
pub fn list_from<T>(v: &V, k: &str, f: impl Fn(&V) -> T) -> Vec<T> {
    ga(v, k).iter().map(f).collect()
}
pub fn wit_to(x: &Witness) -> V {
    V::String(hex(x.as_ref()))
}

pub fn script_to(t: &Script) -> V {
    json!({"k": "script", "price": w(*t.gas_price()), "limit": w(*t.gas_limit()), "maturity": w(*t.maturity()),
        "script": hex(t.script()), "data": hex(t.script_data()), "rroot": hex(t.receipts_root().as_ref()),
        "inputs": list_to(t.inputs(), input_to), "outputs": list_to(t.outputs(), output_to), "wits": list_to(t.witnesses(), wit_to)})
}
pub fn create_to(t: &Create) -> V {
    json!({"k": "create", "price": w(*t.gas_price()), "limit": w(*t.gas_limit()), "maturity": w(*t.maturity()),
        "bcl": w(*t.bytecode_length()), "bwi": t.bytecode_witness_index(), "salt": hex(t.salt().as_ref()),
        "slots": list_to(t.storage_slots(), slot_to),
        "inputs": list_to(t.inputs(), input_to), "outputs": list_to(t.outputs(), output_to), "wits": list_to(t.witnesses(), wit_to)})
}
pub fn mint_to(t: &Mint) -> V {
    json!({"k": "mint", "ptr": ptr_to(fuel_tx::field::TxPointer::tx_pointer(t)), "outputs": list_to(t.outputs(), output_to)})
}
pub fn tx_to(t: &Transaction) -> V {
    match t {
        Transaction::Script(t) => script_to(t),
        Transaction::Create(t) => create_to(t),
        Transaction::Mint(t) => mint_to(t),
    }
}

/// Witnesses given as plain hex are stored as they are; anything symbolic is left empty here and
/// resolved by the caller once the rest of the transaction is known.
fn plain_wits(v: &V) -> Vec<Witness> {
    ga(v, "wits").iter().map(|x| match x {
        V::String(s) => Witness::from(unhex(s)),
        _ => Witness::default(),
    }).collect()
}

pub fn tx_from(v: &V) -> Transaction {
    match gs(v, "k") {
        "script" => {
            let mut t = Transaction::script(gw(v, "price"), gw(v, "limit"), gw(v, "maturity"), gb(v, "script"), gb(v, "data"),
                list_from(v, "inputs", input_from), list_from(v, "outputs", output_from), plain_wits(v));
            *t.receipts_root_mut() = Bytes32::from(g32(v, "rroot"));
            t.into()
        }
        "create" => {
            let mut t = Transaction::create(gw(v, "price"), gw(v, "limit"), gw(v, "maturity"), gu8(v, "bwi"),
                Salt::from(g32(v, "salt")), list_from(v, "slots", slot_from),
                list_from(v, "inputs", input_from), list_from(v, "outputs", output_from), plain_wits(v));
            *t.bytecode_length_mut() = gw(v, "bcl");
            t.into()
        }
        "mint" => Transaction::mint(ptr_from(g(v, "ptr")), list_from(v, "outputs", output_from)).into(),
        k => panic!("harness: tx kind {k}"),
    }
}

pub const PARAM_NAMES: [&str; 13] = ["contractMaxSize", "maxInputs", "maxOutputs", "maxWitnesses", "maxGasPerTx",
    "maxScriptLength", "maxScriptDataLength", "maxStorageSlots", "maxPredicateLength", "maxPredicateDataLength",
    "gasPriceFactor", "gasPerByte", "maxMessageDataLength"];

pub fn params_to(p: &ConsensusParameters) -> V {
    let vals = [p.contract_max_size, p.max_inputs, p.max_outputs, p.max_witnesses, p.max_gas_per_tx,
        p.max_script_length, p.max_script_data_length, p.max_storage_slots, p.max_predicate_length,
        p.max_predicate_data_length, p.gas_price_factor, p.gas_per_byte, p.max_message_data_length];
    V::Object(PARAM_NAMES.iter().zip(vals).map(|(n, x)| (n.to_string(), V::String(w(x)))).collect::<Map<_, _>>())
}
/// Parameters are set field by field (the fields are public), so that this projection does not
/// depend on the setters that are themselves under test.
pub fn params_from(v: &V) -> ConsensusParameters {
    ConsensusParameters {
        contract_max_size: gw(v, "contractMaxSize"), max_inputs: gw(v, "maxInputs"), max_outputs: gw(v, "maxOutputs"),
        max_witnesses: gw(v, "maxWitnesses"), max_gas_per_tx: gw(v, "maxGasPerTx"), max_script_length: gw(v, "maxScriptLength"),
        max_script_data_length: gw(v, "maxScriptDataLength"), max_storage_slots: gw(v, "maxStorageSlots"),
        max_predicate_length: gw(v, "maxPredicateLength"), max_predicate_data_length: gw(v, "maxPredicateDataLength"),
        gas_price_factor: gw(v, "gasPriceFactor"), gas_per_byte: gw(v, "gasPerByte"), max_message_data_length: gw(v, "maxMessageDataLength"),
    }
}

/// A check error as the record the specification's rule sets contain: name, index (or -1),
/// identifier (or ""), expected and provided amounts (or "").
pub fn err_to(e: &CheckError) -> V {
    use CheckError::*;
    let mut ix: i64 = -1;
    let (mut id, mut x, mut y) = (String::new(), String::new(), String::new());
    match e {
        InputWitnessIndexBounds { index } | InputPredicateEmpty { index } | InputPredicateLength { index }
        | InputPredicateDataLength { index } | InputPredicateOwner { index } | InputInvalidSignature { index }
        | InputContractAssociatedOutputContract { index } | InputMessageDataLength { index }
        | OutputContractInputIndex { index } | TransactionCreateInputContract { index }
        | TransactionCreateOutputContract { index } | TransactionCreateOutputVariable { index }
        | TransactionCreateOutputChangeNotBaseAsset { index }
        | TransactionCreateOutputContractCreatedMultiple { index }
        | TransactionScriptOutputContractCreated { index } => ix = *index as i64,
        DuplicateInputUtxoId { utxo_id } => { id = hex(utxo_id.tx_id().as_ref()); ix = utxo_id.output_index() as i64 }
        DuplicateMessageInputId { message_id } => id = hex(message_id.as_ref()),
        DuplicateInputContractId { contract_id } => id = hex(contract_id.as_ref()),
        TransactionOutputCoinAssetIdDuplicated(a) | TransactionOutputChangeAssetIdDuplicated(a)
        | TransactionOutputChangeAssetIdNotFound(a) | TransactionOutputCoinAssetIdNotFound(a) => id = hex(a.as_ref()),
        InsufficientFeeAmount { expected, provided } => { x = w(*expected); y = w(*provided) }
        InsufficientInputAmount { asset, expected, provided } => { id = hex(asset.as_ref()); x = w(*expected); y = w(*provided) }
        _ => {}
    }
    let dbg = format!("{e:?}");
    let name: String = dbg.chars().take_while(|c| c.is_ascii_alphanumeric()).collect();
    json!({"e": name, "ix": ix, "id": id, "x": x, "y": y})
}

pub fn verdict<T>(r: &Result<T, CheckError>) -> V {
    match r {
        Ok(_) => json!({"r": "ok"}),
        Err(e) => json!({"r": "err", "err": err_to(e)}),
    }
}
