#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the statements stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=None)))
T = "src/transaction/"
CHK = T + "checkable.rs"
p("C01", "Consensus limits bind every accepted script and create",
  "A script or create transaction that passes the unsigned check never exceeds the consensus parameters and block height it was checked against: gas limit, maturity, number of inputs, outputs, witnesses and storage slots, and the lengths of script, script data, predicate, predicate data, message data and bytecode. A value exactly at its limit is accepted, and each limit is governed by its own parameter only. When a limit is exceeded the check fails with an error that names a limit (and, for inputs, the index of an input) that really is exceeded.",
  ["inputs", "configurations"], "all script/create transactions x all consensus parameters x all block heights",
  "The tests try one value above the default limits for some fields; they never vary the parameters independently, nor the position of the offending input, nor combinations.",
  [CHK, T+"types/script.rs", T+"types/create.rs", T+"consensus_parameters.rs"],
  [("check_common_part", CHK), ("Input::check_without_signature", CHK), ("Script/Create::check_without_signatures", T+"types/script.rs")],
  ["Checkable::check_without_signatures", "IntoChecked::into_checked_basic", "Input::check_without_signature"])
p("C02", "No input is spent twice within a transaction",
  "No accepted script or create transaction consumes the same coin UTXO, the same message or the same contract in two of its inputs, whether the two inputs are signed or predicate-guarded, adjacent or far apart. Inputs whose identifiers differ in any byte (including the output index of a UTXO) never conflict, and a coin and a contract may carry the same UTXO id. A rejection for duplication names an identifier that occurs twice.",
  ["inputs"], "all input lists",
  "The tests check one adjacent pair per kind; the guarantee quantifies over all positions, kinds and near-equal identifiers.",
  [CHK, T+"types/utxo_id.rs"], [("next_duplicate over utxo/contract/message ids", CHK)],
  ["Checkable::check_without_signatures"])
p("C03", "Contract inputs and contract outputs pair one to one",
  "In every accepted script transaction each contract input is referred to by exactly one contract output and every contract output refers to an existing contract input; any other arrangement is rejected with an error naming a badly paired input or output. Inputs and outputs of other kinds play no part in the pairing.",
  ["inputs"], "all arrangements of inputs and outputs",
  "The tests use a handful of arrangements; pairing is a relation over all positions of two lists.",
  [CHK], [("Input::check_without_signature (Contract)", CHK), ("Output::check", CHK)],
  ["Checkable::check_without_signatures", "Output::check", "Input::check_without_signature"])
p("C04", "Coin and change outputs only use assets present in the inputs",
  "In every accepted script or create transaction the asset of each coin output and each change output is the asset of some coin input, or the base asset when a message input is present, and no asset of the inputs has more than one change output. Contract inputs supply no asset, and variable, message, contract and contract-created outputs are not restricted by this rule. A rejection for this reason names an asset that really breaks the rule.",
  ["inputs"], "all input and output lists",
  "The tests check single examples for one asset each.",
  [CHK, "src/transaction.rs"], [("check_common_part asset rules", CHK), ("Executable::input_asset_ids", "src/transaction.rs")],
  ["Checkable::check_without_signatures"])
p("C05", "Checked transactions conserve value",
  "A checked script or create transaction reports, for every asset, exactly the sum of its coin inputs (message inputs counting as the base asset) minus its coin outputs and, for the base asset, minus the maximum fee, always with an entry for the base asset and computed without wrap-around. A transaction is rejected at this stage exactly when some asset (or the fee) is not covered or a total does not fit in 64 bits, with an error that says which and carries true amounts; it never panics.",
  ["inputs", "configurations"], "all transactions, amounts up to 2^64-1 and consensus parameters",
  "The quickcheck tests use one input and one asset, amounts that do not overflow, and recompute with the code under test.",
  ["src/checked_transaction.rs"], [("initial_free_balances", "src/checked_transaction.rs")],
  ["Checked::metadata", "IntoChecked::into_checked_basic"],
  [("initial_free_balances", "balance per asset after fee and coin outputs", "Script/Create CheckedMetadata")])
p("C06", "Fees are exact, rounded up, witness-independent, and never wrap",
  "The maximum fee is ceil((metered bytes * gas per byte + gas limit) * gas price / price factor), the minimum fee is the same without the gas limit, and the reported gas amounts are the bytes gas and bytes gas plus limit; minimum never exceeds maximum and overflow of 64-bit intermediate results yields no fee instead of a wrapped one. The metered bytes of a transaction are its serialized size without its witnesses, whatever the witnesses are. A gas refund is floor(gas * price / factor), or none if it does not fit 64 bits.",
  ["inputs", "configurations"], "all 64-bit gas values, prices, positive price factors, and all transactions",
  "The tests use small constants and three overflow points; rounding and overflow boundaries need all 64-bit values.",
  [T+"fee.rs", T+"types/script.rs", T+"types/create.rs", T+"types/mint.rs"], [("TransactionFee::checked_from_values", T+"fee.rs"), ("gas_refund_value", T+"fee.rs"), ("metered_bytes_size", T+"types/script.rs")],
  ["TransactionFee", "Chargeable::metered_bytes_size"])
p("C07", "Only correctly authorized inputs pass the signature check",
  "The signature check of a script or create transaction succeeds exactly when every signed coin or message input refers to an existing 64-byte witness that is a signature over this transaction's id by the key of the input's owner (recipient for messages), and the owner (recipient) of every predicate input is the address derived from its predicate code. Contract inputs and mint transactions need no authorization. A failure names an input that really is unauthorized. Already the check without signatures rejects a signed input whose witness does not exist and a predicate input whose predicate is empty.",
  ["inputs", "histories"], "all input and witness lists, keys, and orders of inputs",
  "The tests use one or two inputs and a handful of wrong witnesses; the guarantee is per input, for all positions and sharing patterns of witnesses.",
  [CHK, T+"types/script.rs", T+"types/create.rs", T+"types/input.rs"], [("Input::check_signature", CHK), ("check_signatures", T+"types/script.rs")],
  ["Checkable::check_signatures", "Checked::check_signatures", "Input::check_signature"])
p("C08", "Signing authorizes the key's inputs and touches nothing else",
  "Signing with a key replaces exactly the witnesses referred to by the signed coin and message inputs owned by that key with a valid signature over the transaction id, and changes no other witness or field, nor the id. After signing with the keys of all owners of signed inputs that do not share witnesses, the signature check of those inputs succeeds, in any order of signing and when repeated.",
  ["inputs", "histories"], "all transactions, key sets and signing orders",
  "The tests sign with one or a few keys in one order and only check final acceptance.",
  [T+"id.rs"], [("Signable::sign_inputs", T+"id.rs")], ["Signable::sign_inputs", "witnesses"])
p("C09", "The transaction id ignores exactly the malleable fields",
  "The id of a script or create transaction does not change when witnesses are added, removed or replaced, or when the fields filled in during execution change: the receipts root, the transaction pointers of coin and contract inputs, the UTXO id and roots of contract inputs, the roots of contract outputs, the amount of change outputs, and the whole content of message and variable outputs. Preparing for script execution or predicate verification therefore never changes the id.",
  ["inputs", "histories"], "all transactions and all sequences of changes to malleable fields",
  "The existing id test flips single fields of a few fixed transactions.",
  [T+"id.rs", T+"types/script.rs", T+"types/create.rs", T+"types/input.rs", T+"types/output.rs"], [("prepare_sign", T+"types/input.rs"), ("id", T+"types/script.rs")],
  ["UniqueIdentifier::id"])
p("C10", "The transaction id commits to every other field",
  "The id is the SHA-256 hash of the transaction's canonical encoding with malleable fields zeroed and witnesses removed (for a mint transaction, of its whole encoding), so two transactions that differ in any non-malleable field, in the order, kind or number of inputs, outputs or storage slots, or in transaction kind, have different ids. Equal content always gives equal ids, including through the transaction enum.",
  ["inputs"], "all pairs of transactions",
  "The existing test flips whole fields one at a time and compares for inequality, never against the specified preimage.",
  [T+"id.rs", T+"types/script.rs", T+"types/create.rs", T+"types/mint.rs"], [("UniqueIdentifier::id", T+"id.rs"), ("prepare_sign", T+"types/output.rs")],
  ["UniqueIdentifier::id"])
p("C11", "Precomputed data agrees with recomputation",
  "Immediately after precomputation, and inside every checked transaction, the id and every offset reported from the cache equal what the same content yields without a cache, whatever was cached before. A cache never affects equality, hashing or the JSON form, and an up-to-date cache never affects the serialized bytes or a check's verdict; decoded transactions start without one, and clones keep the original's.",
  ["histories", "inputs"], "all sequences of edits, precomputations, clones, encodings and checks",
  "The tests precompute fresh transactions only; stale caches arise from histories of edits.",
  [T+"metadata.rs", T+"types/script.rs", T+"types/create.rs", T+"types/mint.rs"], [("CommonMetadata::compute", T+"metadata.rs"), ("precompute", T+"types/script.rs")],
  ["Cacheable::precompute", "Cacheable::is_computed", "id and offsets"],
  [("metadata", "cached id and offsets", T+"types/*.rs")])
p("C12", "A checked transaction was really checked, and stays what was checked",
  "A checked transaction can only be obtained from one that passes the basic check, and it records the signature check as done only if the signatures are valid for its content; failing the signature check yields no checked transaction. Conversions between the checked forms of the enum and of the variants keep transaction, metadata and the record of checks exactly. The full check succeeds exactly when both partial checks succeed. A default checked value, where one exists, is a valid default transaction, fully checked.",
  ["histories", "inputs"], "all transactions and all sequences of check and conversion steps",
  "The tests follow one path per conversion.",
  ["src/checked_transaction.rs"], [("Checked", "src/checked_transaction.rs"), ("IntoChecked", "src/checked_transaction.rs")],
  ["Checked::checks", "Checked::metadata", "Checked::transaction"],
  [("checks_bitmask", "which checks were passed", "src/checked_transaction.rs")])
p("C13", "Mint transactions are well formed for exactly one block",
  "A mint transaction is accepted exactly when it is checked at the block height of its own pointer, has no more outputs than allowed, and has only coin outputs with pairwise different assets. Any violation is reported by an error naming a rule that is really broken.",
  ["inputs", "configurations"], "all mint transactions, heights, parameters",
  "The tests use one example per rule.",
  [T+"types/mint.rs"], [("Mint::check_without_signatures", T+"types/mint.rs")],
  ["Checkable::check_without_signatures"])
p("C14", "Create transactions deploy exactly one well-formed contract",
  "An accepted create transaction has a bytecode witness whose length in 4-byte instructions equals the declared bytecode length and is within the contract size limit, storage slots within the limit and in ascending key order, no contract input, no contract or variable output, change only in the base asset and at most one contract-created output. A create transaction that obeys these and the common rules is accepted, a violation is reported by an error naming a broken rule, and script transactions have no contract-created output. Storage slots compare by key, so sorting them puts them into the order that is accepted.",
  ["inputs", "configurations"], "all create transactions and parameters",
  "The tests check a single example per rule and position.",
  [T+"types/create.rs", T+"types/script.rs"], [("Create::check_without_signatures", T+"types/create.rs")],
  ["Checkable::check_without_signatures"])
p("C15", "Encoding and decoding transactions is lossless and canonical",
  "Every transaction, input, output, witness, storage slot, UTXO id and transaction pointer encodes to the word-aligned big-endian form of the Fuel transaction format whose length is exactly its reported serialized size, and decoding that encoding, also with bytes following it, yields an equal value and consumes exactly those bytes. (An input whose predicate is empty, which is never valid, decodes as the signed kind.) Encoding into too small a buffer fails without panicking.",
  ["inputs"], "all values, all buffer sizes",
  "The tests round-trip random samples with the code's own decoder, so an error made symmetrically in both directions goes unseen.",
  [T+"txio.rs", T+"types/script.rs", T+"types/create.rs", T+"types/mint.rs", T+"types/input.rs", T+"types/output.rs", T+"types/utxo_id.rs", T+"types/witness.rs", T+"types/storage.rs", "src/tx_pointer.rs"],
  [("io::Read / io::Write / SizedBytes impls", T+"types/")], ["to_bytes", "from_bytes", "serialized_size", "Read", "Write"])
p("C16", "Decoding arbitrary bytes never panics",
  "Decoding any byte string as a transaction, input, output, witness, storage slot, UTXO id, transaction pointer or receipt returns a value or an error: it never panics, aborts or allocates memory out of proportion to the input. A strict prefix of a valid transaction's encoding and bytes that begin with another kind's identifier or hold a transaction pointer whose height or index exceeds its range are always errors, and whatever is decoded encodes again to bytes that decode to an equal value (up to the empty-predicate case).",
  ["inputs"], "all byte strings",
  "The tests decode only encodings of valid values and a few truncations.",
  [T+"txio.rs", T+"types/script.rs", T+"types/create.rs", T+"types/mint.rs", T+"types/input.rs", T+"types/output.rs", T+"types/witness.rs", "src/receipt/receipt_std.rs"],
  [("io::Write impls", T+"types/")], ["from_bytes", "io::Write::write"])
p("C17", "Every reported offset locates its field in the encoding",
  "For every transaction, with or without a cache, each reported offset (of a fixed field, of script, script data, storage slot, input, output, witness, or predicate) is the position in the encoded transaction where exactly that item's encoding begins, the reported predicate length covers it, and offsets are absent exactly when the item does not exist. The offsets of fields within an input or output and the parameter-dependent position of the transaction in memory follow the same layout.",
  ["inputs", "histories"], "all transactions and indexes, cached or not",
  "The tests sample random transactions and check offsets for some fields.",
  [T+"types/script.rs", T+"types/create.rs", T+"types/mint.rs", T+"types/input/repr.rs", T+"types/output/repr.rs", T+"consensus_parameters.rs"],
  [("field::*_offset", "src/transaction.rs"), ("InputRepr/OutputRepr offsets", T+"types/input/repr.rs")], ["*_offset", "*_offset_at", "tx_offset"])
p("C18", "Receipts keep and encode exactly what they were made from",
  "Every receipt returns, from each accessor that applies to its kind, exactly the value it was built with (digests, message ids, nonces and lengths derived as specified) and nothing from accessors that do not apply. Its encoding is the specified sequence of words and decoding the encoding yields an equal receipt; only the contract attached to a panic is not part of the encoding (nor of equality), and a generic failure code that names a known result decodes as that result.",
  ["inputs"], "all receipts of all eleven kinds",
  "The tests round-trip one sample per kind through the code's own codec and check few accessors.",
  ["src/receipt.rs", "src/receipt/receipt_std.rs", "src/receipt/receipt_repr.rs", "src/receipt/script_result.rs"],
  [("Receipt constructors, accessors, codec", "src/receipt.rs")], ["Receipt::*", "to_bytes", "from_bytes"])
p("C19", "Contract ids and roots are functions of code and storage content",
  "The code root is the binary Merkle root of the bytecode in zero-padded 8-byte leaves, the state root is the sparse Merkle root of the storage slots independent of their order, and the contract id is SHA-256 of the protocol seed, salt, code root and state root. A contract taken from a create transaction has exactly the bytes of its bytecode witness, and is refused when that witness is missing; from a transaction of another kind none can be taken.",
  ["inputs"], "all bytecodes (any length), slot sets and orders, salts",
  "The tests compare fixed snapshots of a few lengths.",
  ["src/contract.rs"], [("root_from_code", "src/contract.rs"), ("initial_state_root", "src/contract.rs"), ("Contract::id", "src/contract.rs")], ["Contract"])
p("C20", "VM preparation zeroes exactly the specified fields",
  "Preparing for script execution zeroes the recipient and amount of message outputs, the amount of change outputs and the whole of variable outputs, and nothing else. Preparing for predicate verification zeroes the malleable fields of inputs and outputs (transaction pointers of coins; UTXO id, roots and pointer of contract inputs; roots of contract outputs; message recipient and amount; change amount; whole variable outputs) and nothing else. Both are idempotent.",
  ["inputs", "histories"], "all transactions, all sequences of preparations",
  "The tests use one fixed transaction and look at some of the fields.",
  ["src/transaction.rs", T+"types/input.rs", T+"types/output.rs"], [("prepare_init_script", T+"types/output.rs"), ("prepare_init_predicate", T+"types/input.rs")],
  ["Executable::prepare_init_script", "Executable::prepare_init_predicate"])
p("C21", "Text and JSON forms are faithful, and parsing never panics",
  "A transaction's JSON form parses back to an equal transaction, and so does every serialized form (self-describing or compact) of transactions, their variants and parts, receipts, contracts and parameters; the hexadecimal forms of UTXO ids and transaction pointers (lower and upper case, with or without prefix) have the documented fixed shape and parse back to the same value. Parsing any text returns a value or an error, never a panic, and strings that do not have the right shape or digits are errors.",
  ["inputs"], "all values and all strings",
  "The tests use a few well-formed strings and short malformed ASCII ones.",
  [T+"types/utxo_id.rs", "src/tx_pointer.rs", "src/transaction.rs"], [("FromStr/Display for UtxoId, TxPointer", T+"types/utxo_id.rs"), ("to_json/from_json", "src/transaction.rs")], ["FromStr", "Display", "LowerHex", "UpperHex", "to_json", "from_json"])
p("C22", "Message ids and predicate addresses are derived from full content",
  "The id of a message input is SHA-256 of sender, recipient, nonce, amount and data in that order; the id of an output message is the same with nonce derived from transaction id and output index, and the address of a predicate is the code root of its bytecode (as defined for contracts). Any change in any component changes the result, and a predicate owner is accepted exactly if it equals that address.",
  ["inputs"], "all senders, recipients, nonces, amounts, data and predicates",
  "The tests only use these functions to construct other test data.",
  [T+"types/input.rs", T+"types/output.rs"], [("compute_message_id", T+"types/input.rs"), ("predicate_owner", T+"types/input.rs"), ("Output::message_id", T+"types/output.rs")],
  ["Input::compute_message_id", "Input::predicate_owner", "Output::message_id", "Output::message_nonce"])
p("C23", "The builder produces exactly the transaction described to it",
  "The transaction finished by a builder contains exactly the fields, inputs, outputs and witnesses given to it, in the order given, with each unsigned input referring to its own fresh witness and the create bytecode as the declared bytecode witness; only the requested preparation steps alter it. Finishing with signatures signs every added unsigned input validly for the final content, finishing without leaves their witnesses empty, and the result has an up-to-date cache. A finished builder can be used again: it starts over from the default transaction of its kind and keeps its keys and settings.",
  ["histories"], "all sequences of builder calls (up to 255 witnesses)",
  "The tests build in one or two fixed call orders.",
  ["src/builder.rs", "src/transaction.rs"], [("TransactionBuilder", "src/builder.rs"), ("add_unsigned_*", "src/transaction.rs")],
  ["TransactionBuilder::finalize*"], [("sign_keys, should_prepare_*", "builder state", "src/builder.rs")])
p("C24", "Each consensus parameter setter changes its own field only",
  "Setting a consensus parameter changes that parameter to the given value and leaves every other parameter unchanged, in any order of settings; the default equals the published constants. The parameters survive a JSON round trip unchanged, and a parameter left out of the JSON form has its default.",
  ["histories"], "all sequences of settings and values",
  "There is no test of the setters.",
  [T+"consensus_parameters.rs"], [("with_* setters", T+"consensus_parameters.rs")], ["ConsensusParameters"])
p("C25", "Views over inputs list exactly what the inputs contain",
  "The list of input assets is the assets of coin inputs and the base asset for each message input, in input order; the unique lists of assets and of contracts contain each exactly once and nothing else. The predicate-owner test is true exactly when every predicate input's owner is its predicate's address.",
  ["inputs"], "all input lists",
  "The tests cover single examples.",
  ["src/transaction.rs"], [("Executable", "src/transaction.rs")], ["Executable::input_asset_ids", "input_asset_ids_unique", "input_contracts", "check_predicate_owners"])
p("C26", "Checking depends only on content, height and parameters, and alters nothing",
  "The verdict of a check is the same for the bare variant and the transaction enum, with an up-to-date cache or none, before and after an encode-decode round trip, and however often it is repeated. Checking by reference leaves the transaction unchanged, and a checked transaction contains exactly the transaction that was given. A check never panics.",
  ["inputs", "histories"], "all transactions, repetitions and representations",
  "The tests call each entry point on unrelated examples.",
  [CHK, "src/checked_transaction.rs"], [("Checkable for Transaction", CHK), ("IntoChecked for Transaction", "src/checked_transaction.rs")],
  ["Checkable", "IntoChecked"])
p("C27", "std and no_std builds give the same verdicts",
  "For every transaction, height and parameters, the check without signatures accepts in the build without the standard library exactly if it accepts in the build with it, and the two agree on everything both can say about it: the assets of its inputs, its size, byte offsets and metered size, its fee, its inputs and outputs prepared for execution, and the message ids, predicate addresses, code roots and state roots derived from it.",
  ["configurations", "inputs"], "all transactions in both build configurations",
  "The tests only run with the standard library; the other configuration is merely compiled.",
  [CHK, "src/transaction.rs"], [("next_duplicate cfg", CHK), ("input_asset_ids_unique cfg", "src/transaction.rs")],
  ["Checkable::check_without_signatures", "Executable::input_asset_ids_unique"])
p("C28", "Accessors of transaction parts reflect their content",
  "Each accessor of an input or output returns exactly the value of that field when its kind has one and nothing otherwise (messages count as base asset), the kind predicates identify exactly one kind, and constructors store each argument in its own field. Reported predicate and data lengths are those of the content. Constructors of whole transactions store each argument in its own field (a create's declared bytecode length is its bytecode's in instructions, a script's receipts root is zero), and field setters change their own field only. The forms of witnesses (bytes, mutable bytes, extension) and storage slots (key, value, 64 flat bytes both ways) and the kind of a transaction likewise show and change exactly what is there.",
  ["inputs"], "all inputs, outputs, witnesses, storage slots and transactions of all kinds",
  "There is no test of the accessors as such.",
  [T+"types/input.rs", T+"types/output.rs", T+"types/input/repr.rs", T+"types/output/repr.rs", T+"types/witness.rs", T+"types/storage.rs", T+"repr.rs"], [("Input/Output accessors and constructors", T+"types/input.rs")], ["Input::*", "Output::*"])
p("C29", "Equality, hashing and order follow the content",
  "Two transactions, parts of transactions, receipts, contracts, parameters or checked transactions compare equal exactly if all of their content is equal, in both directions and whether compared as variants or through the enum; a cache is not content, and of panic receipts the recorded contract id is not either. Equal values have equal hashes. UTXO ids are ordered by transaction id, then output index; transaction pointers by block height, then index; every order agrees with equality and is total.",
  ["inputs", "histories"], "all pairs of values of each type, with and without caches",
  "The tests compare values with assert_eq only where they are meant to be equal; an equality that overlooks a field passes all of them.",
  ["src/receipt.rs", "src/transaction.rs", T+"metadata.rs", T+"types/*.rs", T+"consensus_parameters.rs", "src/tx_pointer.rs", "src/contract.rs", T+"fee.rs", "src/checked_transaction.rs"],
  [("PartialEq, Eq, Hash, Ord", T+"types/script.rs"), ("PartialEq for Receipt", "src/receipt.rs")], ["PartialEq", "Eq", "Hash", "Ord", "PartialOrd"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
for x in P:
    assert len(x["title"]) <= 80, x["id"]
print(len(P))
