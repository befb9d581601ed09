"""Which bounded models and how many cases decide each property.

A model is a module of spec/, its constants for the quick and (if different) the thorough tier, the
invariants and temporal properties TLC checks on it, and the share of the executed cases it supplies.
"""

RULES = ["LimitsHold", "SpentOnce", "Paired", "SameNumber", "AssetsDecided", "CreateDecided", "ScriptsCreateNothing", "MintDecided", "TrueErrors"]
LEDGER = ["ExactlyCovered", "Conserved", "TrueAmounts", "FeeLaws", "WitnessesAreFree", "RefundLaws"]
AUTH = ["Authorized", "Named", "NoWitsNoSignatures", "BoundsSeen"]
LIFE = ["CheckedIsValid", "SignedMeansSigned", "CacheAgrees", "SigningWorks"]
LIFEP = ["CheckedIsFrozen", "TakenOutUnchanged", "SigningIsQuiet", "PreparingIsQuiet"]
SYMBOLIC = "CONSTANTS SigOwner <- MSigOwner PredicateOwner <- MPredicateOwner TxId <- MTxId\n"


def rules(focus, quick, thorough=None, what="ws", share=None, op=None):
    return dict(module="MCRules", inv=RULES, share=share, op=op,
                consts=dict(Focus=focus, MaxIn=quick[0], MaxOut=quick[1], What=what),
                deeper=dict(MaxIn=thorough[0], MaxOut=thorough[1]) if thorough else {})


def ledger(focus, quick, thorough, share=None):
    return dict(module="MCLedger", inv=LEDGER, share=share, consts=dict(Focus=focus, MaxIn=quick[0], MaxOut=quick[1]),
                deeper=dict(MaxIn=thorough[0], MaxOut=thorough[1]))


def auth(quick, thorough, share=None, what="sig,ws,full,into"):
    return dict(module="MCAuth", inv=AUTH, extra=SYMBOLIC, share=share, consts=dict(MaxIn=quick[0], MaxWit=quick[1], What=what),
                deeper=dict(MaxIn=thorough[0], MaxWit=thorough[1]))


def life(quick, thorough, share=None, focus="life"):
    return dict(module="MCLife", inv=LIFE, prop=LIFEP, extra=SYMBOLIC + "VIEW View\n", share=share,
                consts=dict(Focus=focus, Depth=quick, Rich=False), deeper=dict(Depth=thorough, Rich=True))


def ident(focus, quick, thorough, share=None):
    return dict(module="MCIdent", inv=["OneField", "Structure", "Prepared", "CopiedIds"], share=share, consts=dict(Focus=focus, MaxIn=quick[0], MaxOut=quick[1]),
                deeper=dict(MaxIn=thorough[0], MaxOut=thorough[1]))


WIRE = ["RoundTrip", "OddRefused", "Sizes", "Normal", "OffsetsPoint", "InsideItems", "Canonical", "PrefixesRefused", "ExtensionsHarmless", "Copies"]
RECEIPT = ["RoundTrip", "Sizes", "Kept", "Derived", "Canonical", "NoPrefix"]
CONTRACT = ["CodeRootsAgree", "PaddingOnly", "PredicateIsCode", "StateRootsAgree", "OrderIrrelevant", "EverySlotCounts", "Sorts"]
TEXT = ["UtxoShapes", "PtrShapes", "Exact", "Stable", "PrintsParse", "OneMeaning"]


def wire(focus, quick, thorough=None, rich=(False, True), share=None, wide=False):
    names = ("MaxIn", "MaxOut", "MaxWit")
    return dict(module="MCWire", inv=WIRE, share=share, consts=dict(Focus=focus, Rich=rich[0], Wide=wide, **dict(zip(names, quick))),
                deeper=dict(Rich=rich[1], **dict(zip(names, thorough or quick))))


def wide(focus, share, **kw):
    return dict(wire(focus, (0, 0, 0), None, (False, False), share, True), **kw)


EXEC = ["script", "create"]     # transactions that are not mint transactions


def receipt(focus, rich, share=None):
    return dict(module="MCReceipt", inv=RECEIPT, share=share, consts=dict(Focus=focus, Rich=rich[0]), deeper=dict(Rich=rich[1]))


def contract(focus, quick, thorough, share=None):
    return dict(module="MCContract", inv=CONTRACT, share=share, consts=dict(Focus=focus, MaxWords=quick[0], MaxSlots=quick[1]),
                deeper=dict(MaxWords=thorough[0], MaxSlots=thorough[1]))


def text(focus, quick, thorough, share):
    return dict(module="MCText", inv=TEXT, share=share, consts=dict(Focus=focus, MaxLen=quick[0], Edits=quick[1]), deeper=dict(MaxLen=thorough[0], Edits=thorough[1]))


RELATE = ["Equivalence", "Receipted", "EncodingTells", "ReceiptsTell", "TotalOrder"]


def relate(focus, types, share, deep=(False, True)):
    return dict(module="MCRelate", inv=RELATE, share=share, consts=dict(Focus=focus, Types=types, Deep=deep[0]), deeper=dict(Deep=deep[1]))


VALUES = ["input", "output", "receipt", "utxo", "ptr", "slot", "fee", "params", "witness", "contract"]
CHECKS = {}


def check(prop, models, cap=(8000, 80000), scale=(8, 40), assumptions=()):
    CHECKS[prop] = dict(models=models, cap=cap, scale=scale, assumptions=COMMON + list(assumptions))


COMMON = [
    "TLC evaluates the specification correctly; the Java implementations of hexadecimal arithmetic, SHA-256 and secp256k1 recovery used by TLC (spec/Prim.java) are checked against TLA+ definitions and published vectors by spec/MCPrim.tla",
    "the harness (harness/) reports faithfully what the public API of fuel-tx returned, and projects values to records field by field",
    "beyond the bounds of the models, the verdict extends to the code as far as the executed cases (bounded-exhaustive from the models, random beyond) exercise it",
]
SYMB = "in the model signatures and addresses are symbolic (unforgeable, collision-free); recorded executions use real secp256k1 signatures and SHA-256"

check("C01", [rules("C01", (1, 0), (2, 0))])
check("C02", [rules("C02", (3, 0), (4, 0), share=0.97), rules("C02wide", (1, 0), (2, 0), share=0.03)])
check("C03", [rules("C03", (3, 3), (4, 3), share=0.97), rules("C03wide", (1, 1), (1, 2), share=0.03)])
check("C04", [rules("C04", (2, 2), (3, 2), share=0.97), rules("C04wide", (1, 1), (1, 2), share=0.03)])
check("C05", [ledger("C05", (2, 1), (2, 2))], assumptions=["gas price factor is positive (0 divides by zero by design of the formula)"])
check("C06", [ledger("C06", (1, 1), (2, 1), 0.95), wide("offsets", 0.05)], assumptions=["gas price factor is positive"])
check("C07", [auth((1, 2), (2, 2), 0.4), auth((2, 1), (3, 1), 0.6)], assumptions=[SYMB])
check("C08", [life(4, 6, 0.5), life(2, 3, 0.5, "sign")], assumptions=[SYMB], scale=(5, 30))
check("C09", [ident("pair", (2, 1), (2, 2), 0.8), ident("prep", (1, 1), (2, 2), 0.15), wide("offsets", 0.05, op="prep", kinds=EXEC)], assumptions=["SHA-256 has no collisions among the compared encodings"])
check("C10", [ident("pair", (2, 1), (2, 2), 0.95), wide("offsets", 0.05, op="ident")], assumptions=["SHA-256 has no collisions among the compared encodings"])
check("C11", [life(4, 6, 0.95), wide("offsets", 0.05)], assumptions=[SYMB], scale=(5, 30))
check("C12", [life(4, 6, 0.7), auth((1, 1), (1, 2), 0.3, "all")], assumptions=[SYMB], scale=(5, 30))
check("C13", [rules("C13", (0, 2), (0, 3), share=0.97), rules("C13wide", (0, 1), (0, 2), share=0.03)])
check("C14", [rules("C14bytes", (2, 0), None, share=0.25), rules("C14slots", (4, 0), (5, 0), share=0.15), rules("C14bytes", (1, 0), None, share=0.05), rules("C14slots", (2, 0), None, share=0.05), rules("C14items", (2, 2), (2, 3), share=0.42), rules("C14wide", (0, 0), share=0.03), dict(contract("order", (0, 3), (0, 3), 0.05), inv=["Sorts"])])
check("C15", [wire("codec", (1, 1, 1), (1, 1, 1), share=0.95), wide("codec", 0.05)])
check("C16", [wire("decode", (1, 0, 0), share=0.65), receipt("decode", (False, True), 0.3), wide("decode", 0.05)], scale=(5, 30))
check("C17", [wire("offsets", (1, 1, 1), (2, 1, 1), (False, False), share=0.95), wide("offsets", 0.05)])
check("C18", [receipt("receipt", (True, True))])
check("C19", [contract("code", (17, 0), (33, 0), 0.8), contract("slots", (0, 2), (0, 3), 0.2)])
check("C20", [ident("prep", (2, 2), (3, 2), 0.95), wide("offsets", 0.05, op="prep", kinds=EXEC)])
check("C21", [text("short", (4, 0), (5, 0), 0.2), text("edits", (0, 1), (0, 2), 0.5), text("print", (0, 0), (0, 0), 0.1), dict(ident("prep", (1, 1), (2, 1), 0.1), op="json"), wide("offsets", 0.05, op="json"), relate("serde", VALUES, 0.1)])
check("C22", [contract("derive", (9, 0), (17, 0))])
check("C23", [dict(module="MCBuild", inv=["Accumulates", "OwnWitness", "SigningSuffices", "Keys", "PreparesAsAsked", "SameId"],
                    consts=dict(Kinds=["script", "create", "mint"], Depth=3), deeper=dict(Depth=4))], scale=(5, 30))
check("C24", [dict(module="MCParams", inv=["LatestCounts", "Replayed", "Complete", "Commute"], prop=["OnlyThatOne"], consts=dict(Depth=2), deeper=dict(Depth=3))])
check("C25", [dict(module="MCViews", inv=["InOrder", "SameAssets", "Contracts", "OwnersAlone"], prop=["Grows"], consts=dict(MaxIn=3), deeper=dict(MaxIn=4), share=0.95), wide("offsets", 0.05, op="views", kinds=EXEC)])
check("C26", [rules("C03", (2, 2), (3, 2), "all", 0.3), rules("C04", (2, 2), (2, 2), "all", 0.4), rules("C14items", (1, 2), (2, 2), "all", 0.3)], cap=(3000, 40000))
check("C27", [rules("C03", (2, 2), (3, 2), share=0.3, op="twin"), rules("C04", (2, 2), (2, 2), share=0.4, op="twin"), rules("C14items", (1, 2), (2, 2), share=0.3, op="twin")])
check("C29", [relate("relate", VALUES, 0.6), dict(ident("pair", (1, 1), (2, 1), 0.4), op="relate")])
check("C28", [wire("access", (0, 0, 0), rich=(True, True), share=0.95), wide("access", 0.05)])


def constants(m, tier):
    return {**m["consts"], **(m.get("deeper", {}) if tier == "thorough" else {})}


def tla(v):
    return ("TRUE" if v else "FALSE") if isinstance(v, bool) else str(v) if isinstance(v, int) else "{" + ", ".join(map(tla, v)) + "}" if isinstance(v, list) else '"%s"' % v


def cfg(m, tier, casefile):
    lines = ["CONSTANTS"] + [f"  {n} = {tla(v)}" for n, v in constants(m, tier).items()] + [f'  CaseFile = "{casefile}"']
    lines += [m.get("extra", ""), "SPECIFICATION Spec", "CHECK_DEADLOCK FALSE"]
    lines += ["INVARIANT " + n for n in m.get("inv", [])] + ["PROPERTY " + n for n in m.get("prop", [])]
    return "\n".join(lines) + "\n"
