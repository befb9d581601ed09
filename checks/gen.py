"""Random cases for the trace side of each check.

The generator is not an oracle: it only has to reach interesting inputs (boundaries, collisions,
almost-valid transactions). What the code must do with them is decided by the TLA+ specification.
"""
import copy
import glob
import json
import os
import random
import re
from itertools import product

Z32 = "00" * 32
W = lambda n: format(n & (2**64 - 1), "016x")
PARAMS = ["contractMaxSize", "maxInputs", "maxOutputs", "maxWitnesses", "maxGasPerTx", "maxScriptLength",
          "maxScriptDataLength", "maxStorageSlots", "maxPredicateLength", "maxPredicateDataLength",
          "gasPriceFactor", "gasPerByte", "maxMessageDataLength"]
DEFAULTS = dict(zip(PARAMS, [16 << 20, 255, 255, 255, 100000000, 1 << 20, 1 << 20, 255, 1 << 20, 1 << 20, 10**9, 4, 1 << 20]))
SIGNED = ("coinSigned", "messageSigned")
PRED = ("coinPredicate", "messagePredicate")
COIN = ("coinSigned", "coinPredicate")
MSG = ("messageSigned", "messagePredicate")
INKINDS = ["coinSigned", "coinPredicate", "contract", "messageSigned", "messagePredicate"]
OUTKINDS = ["coin", "contract", "message", "change", "variable", "created"]


MANY = (13, 26, 52, 104, 205, 254)
# numbers that were there when this was written: tried less often than others
OLD = (10, 12, 16, 255, 1024, 3829, 83473, 1 << 20, 1 << 24, 10**8, 10**9)


def literals(root="/repo/src", most=60):
    """The integers above 9 written in the code under test, as a dictionary for the generator: a value
    nothing else suggests is where a condition on it changes sides. What is expected never depends on it."""
    num = r"(?:0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)"
    suf = r"(?:_?[ui](?:8|16|32|64|128|size))?"
    val = lambda x: int(re.sub(r"_?[ui](8|16|32|64|128|size)$", "", x).replace("_", "") or "0", 0 if x[:1] == "0" and x[1:2] in ("x", "b", "o") else 10)
    out = set()
    for f in sorted(glob.glob(os.path.join(root, "**", "*.rs"), recursive=True)):
        try:
            s = open(f, encoding="utf-8", errors="replace").read()
        except OSError:
            continue
        s = re.split(r"#\[cfg\([^\n]*\btest\b[^\n]*\]\s*(?:pub\s+)?mod\s+\w+\s*\{", s)[0]
        s = re.sub(r"//[^\n]*|/\*.*?\*/", " ", s, flags=re.S)
        s = re.sub(r'"(?:\\.|[^"\\])*"', '""', s, flags=re.S)
        for m in re.finditer(rf"(?<![\w.]){num}{suf}(?:\s*(?:<<|\*)\s*{num}{suf})*(?![\w])", s):
            ops = re.split(r"\s*(<<|\*)\s*", m.group(0))
            try:
                v = val(ops[0])
                out.add(v)
                for o, x in zip(ops[1::2], ops[2::2]):
                    out.add(val(x))
                    v = v << val(x) if o == "<<" and val(x) < 64 else v * val(x)
                out.add(v)
            except ValueError:
                pass
    out = sorted(x for x in out if 9 < x < 2**64)
    return out if len(out) <= most else sorted(random.Random(len(out)).sample(out, most))


class G:
    def __init__(self, seed, lits=()):
        self.r = random.Random(seed)
        r = self.r
        self.lits = sorted({x + d for x in lits for d in (-1, 0, 1) if x + d < 2**64})
        self.rate = 0.3 if lits else 0
        self.many = MANY
        if lits:
            self.raw = list(lits)
            self.new = [x for x in lits if x not in OLD] or self.raw
            near = lambda ls: sorted({x + d for x in ls for d in (0, 1, 2) if 9 < x + d <= 254})
            xs, ys = near(self.new), near(lits)
            self.many = tuple(sorted(set(r.sample(xs, min(len(xs), 9)) + r.sample(ys, min(len(ys), 3)))))
            self.focus = r.choice(self.new)
        base = "".join(r.choice("0123456789abcdef") for _ in range(64))
        # ids that differ in single bytes at either end, and extremes
        self.ids = [Z32, "00" * 31 + "01", "01" + "00" * 31, "ff" * 32, "80" + "00" * 31, "7f" + "ff" * 31, base,
                    base[:62] + format(int(base[62:], 16) ^ 1, "02x"), format(int(base[:2], 16) ^ 128, "02x") + base[2:],
                    base[:32] + format(int(base[32:34], 16) ^ 16, "02x") + base[34:]]
        self.assets = [Z32, "00" * 31 + "01", "aa" * 32, base, base[:62] + format(int(base[62:], 16) ^ 1, "02x")]

    # ---- atoms
    def lit(self, hi, rate=None):
        """a value of the dictionary up to hi, sometimes"""
        r = self.r
        if self.rate and r.random() < (rate or self.rate):
            if r.random() < 0.05:
                self.focus = r.choice(self.new if r.random() < 0.8 else self.raw)
            x = self.focus + r.choice((-1, 0, 0, 0, 1))
            if x <= hi and r.random() < 0.8:
                return x
            xs = [x for x in self.lits if x <= hi]
            return r.choice(xs) if xs else None
        return None

    def p(self, x):
        return self.r.random() < x

    def pick(self, xs):
        return self.r.choice(xs)

    def n(self, a, b):
        return self.r.randint(a, b)

    def hex(self, n):
        return self.r.randbytes(n).hex()

    def b32(self):
        x = self.lit(2**64 - 1, 0.05)
        if x is not None:
            return self.pick([format(x % 256, "02x") * 32, format(x, "064x"), W(x) + self.hex(24), (x % 2**64).to_bytes(8, "little").hex() + self.hex(24), self.hex(24) + W(x)])
        return self.pick(self.ids) if self.p(0.5) else self.hex(32)

    def asset(self):
        x = self.lit(255)
        if x is not None:
            x = format(x, "02x")
            return self.pick([x * 32, x + self.assets[3][2:], self.assets[3][:62] + x])
        a = self.pick(self.assets) if self.p(0.9) else self.hex(32)
        if self.p(0.06):
            x = self.pick([0, 15, 30, 31, self.n(0, 31)])
            a = a[:2 * x] + format(int(a[2 * x:2 * x + 2], 16) ^ (1 << self.n(0, 7)), "02x") + a[2 * x + 2:]
        return a

    def word(self):
        r = self.r
        x = self.lit(2**64 - 1)
        if x is not None:
            return x
        return r.choice([0, 1, 2, 7, 255, 256, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**63 - 1, 2**63, 2**64 - 2, 2**64 - 1,
                         r.getrandbits(64), r.getrandbits(32), r.getrandbits(8), 1 << r.randint(0, 63)])

    def w(self):
        return W(self.word())

    def smallw(self, hi=10**6):
        x = self.lit(hi)
        if x is not None:
            return W(x)
        return W(self.n(0, hi))

    def length(self, hi=40):
        return self.pick([0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, self.n(0, hi)])

    def blob(self, hi=40):
        n = self.length(hi)
        x = self.lit(5000)
        if x is not None:
            if x <= 300 or self.p(0.4):
                n = x
            return self.hex(n - 1) + format(self.lit(255) or 7, "02x") if n and self.p(0.5) else self.hex(n)
        if self.p(0.03):
            n = self.n(hi + 1, 300)
        if self.p(0.003):
            n = self.pick([255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, self.n(0, 8000)])
            if self.p(0.1):
                n = self.pick([32767, 32768, 65535, 65536, 65537])
        k = self.n(0, 5)
        return ("00" if k == 0 else "ff" if k == 1 else None) * n if k < 2 else self.hex(n)

    def nblob(self, hi=40):
        return self.blob(hi) or "24"

    def u8(self):
        x = self.lit(255)
        if x is not None:
            return x
        return self.pick([0, 1, 2, 3, 254, 255, self.n(0, 255)])

    def ptr(self):
        if self.rate and self.p(0.6):
            x, y = self.lit(2**32 - 1, 0.6), self.lit(65535, 0.6)
            return {"h": W(self.r.getrandbits(32) if x is None else x), "i": W(self.r.getrandbits(16) if y is None else y)}
        return {"h": W(self.pick([0, 1, 2**31, 2**32 - 1, self.r.getrandbits(32)])), "i": W(self.pick([0, 1, 255, 256, 65535, self.r.getrandbits(16)]))}

    def utxo(self):
        return {"id": self.b32(), "ix": self.u8()}

    # ---- inputs and outputs with arbitrary content
    def input(self, t=None, nw=3, raw=False):
        t = t or self.pick(INKINDS)
        own = lambda: self.b32() if raw or self.p(0.1) else {"key": self.n(0, 3)}
        if t == "contract":
            return {"t": t, "utxo": self.utxo(), "broot": self.b32(), "sroot": self.b32(), "ptr": self.ptr(), "cid": self.b32()}
        if t in COIN:
            i = {"t": t, "utxo": self.utxo(), "owner": own(), "amount": self.w(), "asset": self.asset(), "ptr": self.ptr(), "maturity": self.w()}
        else:
            i = {"t": t, "mid": self.b32(), "sender": self.b32(), "recipient": own(), "amount": self.w(), "nonce": self.w(), "data": self.blob()}
        if t in SIGNED:
            i["wix"] = self.u8() if raw else self.n(0, nw)
        else:
            i["pred"] = self.nblob() if self.p(0.95) else ""
            i["pdata"] = self.blob()
            if not raw and self.p(0.9):
                i["owner" if t in COIN else "recipient"] = {"pred": i["pred"]}
        return i

    def output(self, t=None, nin=3):
        t = t or self.pick(OUTKINDS)
        if t == "contract":
            return {"t": t, "inix": self.n(0, max(nin, 1)) if self.p(0.8) else self.u8(), "broot": self.b32(), "sroot": self.b32()}
        if t == "message":
            return {"t": t, "recipient": self.b32(), "amount": self.w()}
        if t == "created":
            return {"t": t, "cid": self.b32(), "sroot": self.b32()}
        return {"t": t, "to": self.b32(), "amount": self.w(), "asset": self.asset()}

    def slots(self, n=None):
        n = self.pick([0, 0, 1, 2, 3, self.n(0, 9)]) if n is None else n
        ks = set()
        while len(ks) < n:
            ks.add(self.b32())
        return [{"k": k, "v": self.b32()} for k in sorted(ks)]

    def wit(self):
        return self.blob() if self.p(0.7) else self.hex(64)

    # ---- transactions with arbitrary content (for encodings, ids, offsets ...)
    def anytx(self, kind=None, hi=4, raw=True):
        kind = kind or self.pick(["script", "script", "create", "create", "mint"])
        wide = self.pick([0, 1, 2, 3]) if hi > 1 and self.p(0.02) else -1
        x = self.lit(300, 0.1)
        if x is not None:
            wide = self.n(0, 3)
        counts = [(x or self.pick([17, 40, 129, 255, 256, 300])) if k == wide else self.pick([0, 1, 2, self.n(0, hi)]) for k in range(4)]
        c = counts.pop
        outs = lambda: [self.output() for _ in range(c())]
        if kind == "mint":
            return {"k": "mint", "ptr": self.ptr(), "outputs": outs()}
        t = {"k": kind, "price": self.w(), "limit": self.w(), "maturity": self.w(),
             "inputs": [self.input(raw=raw) for _ in range(c())], "outputs": outs(), "wits": [self.wit() for _ in range(c())]}
        if kind == "script":
            t.update(script=self.blob(), data=self.blob(), rroot=self.b32())
        else:
            t.update(bcl=self.w(), bwi=self.u8(), salt=self.b32(), slots=self.slots(c() if wide == 0 else None))
        return t

    # ---- valid transactions
    def valid(self, kind=None, nin=None, shared=0.15):
        """A transaction that obeys every rule under generous parameters; returns (tx, params, height)."""
        kind = kind or self.pick(["script", "script", "create"])
        if kind == "mint":
            h = self.pick([0, 1, 2, 2**31, 2**32 - 1, self.r.getrandbits(32)])
            assets = self.r.sample(self.assets, self.n(0, 4))
            x = self.lit(2**32 - 1)
            h = h if x is None else x
            return ({"k": "mint", "ptr": {"h": W(h), "i": W(self.n(0, 65535))},
                     "outputs": [{"t": "coin", "to": self.b32(), "amount": self.w(), "asset": a} for a in assets]}, dict(DEFAULTS), h)
        script = kind == "script"
        nin = self.pick([0, 1, 1, 2, 2, 3, 4, 6]) if nin is None else nin
        ins, wits = [], []
        if not script:
            x = self.lit(5000, 0.15)
            wits.append(self.hex(4 * self.n(0, 6) + self.pick([0, 0, 0, 1, 2, 3]) if x is None else x))
        used = set()
        keywit = {}

        def fresh(f):
            while True:
                x = f()
                if str(x) not in used:
                    used.add(str(x))
                    return x
        for _ in range(nin):
            t = self.pick(INKINDS if script else [k for k in INKINDS if k != "contract"])
            i = self.input(t)
            if t in COIN:
                i["utxo"] = fresh(self.utxo)
                i["amount"] = self.smallw()
            elif t in MSG:
                i["mid"] = fresh(self.b32)
                i["amount"] = self.smallw()
            else:
                i["cid"] = fresh(self.b32)
            if t in SIGNED:
                k = self.n(0, 3)
                i["owner" if t in COIN else "recipient"] = {"key": k}
                if k in keywit and (self.p(0.6) or len(wits) > 240):
                    i["wix"] = keywit[k]
                else:
                    i["wix"] = keywit[k] = len(wits)
                    wits.append({"sig": k})
            elif t in PRED:
                i["pred"] = self.nblob()
                i["owner" if t in COIN else "recipient"] = {"pred": i["pred"]}
            ins.append(i)
        for _ in range(self.pick([0, 0, 0, 1, 2])):
            wits.append(self.wit())
        outs = []
        amounts = {}
        for i in ins:
            if i["t"] != "contract":
                a = i["asset"] if i["t"] in COIN else Z32
                amounts[a] = amounts.get(a, 0) + int(i["amount"], 16)
        assets = sorted(amounts)
        for n, i in enumerate(ins):
            if i["t"] == "contract":
                outs.append({"t": "contract", "inix": n, "broot": self.b32(), "sroot": self.b32()})
        left = dict(amounts)
        for _ in range(self.pick([0, 0, 1, 2, 3])):
            if assets:
                a = self.pick(assets)
                x = self.n(0, left[a] // 2)
                left[a] -= x
                outs.append({"t": "coin", "to": self.b32(), "amount": W(x), "asset": a})
        for a in assets:
            if self.p(0.4) and (script or a == Z32):
                outs.append({"t": "change", "to": self.b32(), "amount": self.w(), "asset": a})
        if script:
            for _ in range(self.pick([0, 0, 1, 2])):
                outs.append(self.output(self.pick(["variable", "message"])))
        else:
            if self.p(0.7):
                outs.append(self.output("created"))
            if self.p(0.2):
                outs.append(self.output("message"))
        self.r.shuffle(outs)
        h = self.pick([0, 1, 100, 2**32, 2**63, 2**64 - 1])
        x = self.lit(2**64 - 1)
        h = h if x is None else x
        t = {"k": kind, "price": W(self.pick([0, 0, 1, 2, 1000])), "limit": self.smallw(10**5), "maturity": W(self.n(0, min(h, 10**6))),
             "inputs": ins, "outputs": outs, "wits": wits}
        if script:
            t.update(script=self.blob(), data=self.blob(), rroot=self.b32())
        else:
            n = len(wits[0]) // 2
            t.update(bcl=W(n // 4), bwi=0, salt=self.b32(), slots=self.slots())
        return t, dict(DEFAULTS), h

    # ---- params
    def params(self, p):
        return {k: W(v) for k, v in p.items()}

    def bigparams(self):
        return {k: 2**64 - 1 if k not in ("gasPriceFactor", "gasPerByte") else DEFAULTS[k] for k in PARAMS}

    def check(self, tx, p, h, what="ws"):
        return {"op": "check", "what": what, "height": W(h), "params": self.params(p), "tx": tx}


# ------------------------------------------------------------------------- sizes (to aim at boundaries)
def pad(n):
    return (n + 7) // 8 * 8


def insize(i):
    L = lambda f: pad(len(i.get(f, "")) // 2)
    return 160 if i["t"] == "contract" else (168 if i["t"] in COIN else 152 + L("data")) + L("pred") + L("pdata")


def outsize(o):
    return {"message": 48, "created": 72}.get(o["t"], 80)


def metered(t):
    n = 104 + pad(len(t["script"]) // 2) + pad(len(t["data"]) // 2) if t["k"] == "script" else 112 + 64 * len(t["slots"])
    return n + sum(map(insize, t["inputs"])) + sum(map(outsize, t["outputs"]))


def fees(t, p):
    g = p["gasPerByte"] * metered(t)
    f = p["gasPriceFactor"]
    pr = int(t["price"], 16)
    up = lambda x: -(-x // f)
    return up(g * pr), up((g + int(t["limit"], 16)) * pr)


# ------------------------------------------------------------------------- mutations that break or almost break rules
def usage(t):
    """current value of everything that a parameter limits (largest one, for item limits)"""
    L = lambda x: len(x) // 2
    u = {"maxInputs": len(t["inputs"]), "maxOutputs": len(t["outputs"]), "maxWitnesses": len(t["wits"]), "maxGasPerTx": int(t["limit"], 16)}
    if t["k"] == "script":
        u["maxScriptLength"] = L(t["script"])
        u["maxScriptDataLength"] = L(t["data"])
    else:
        u["maxStorageSlots"] = len(t["slots"])
        w = t["wits"][t["bwi"]] if t["bwi"] < len(t["wits"]) else ""
        u["contractMaxSize"] = L(w) if isinstance(w, str) else 64
    for k, f in (("maxPredicateLength", "pred"), ("maxPredicateDataLength", "pdata"), ("maxMessageDataLength", "data")):
        vs = [L(i[f]) for i in t["inputs"] if f in i]
        if vs:
            u[k] = max(vs)
    return u


def mut_limit(g, t, p, h):
    k = g.n(0, 9)
    u = usage(t)
    if k == 0:
        t["maturity"] = W(min(2**64 - 1, h + g.pick([0, 1])) if g.p(0.7) else max(0, h - 1))
    elif k == 1:
        t["limit"] = W(p["maxGasPerTx"] + g.pick([-1, 0, 1]))
    elif k == 2:
        # the legal maximum of everything: 255 witnesses and so on are covered elsewhere; here huge limits
        for x in PARAMS:
            if x not in ("gasPriceFactor", "gasPerByte"):
                p[x] = 2**64 - 1
        if g.p(0.5):
            x = g.pick(sorted(u))
            p[x] = max(0, u[x] - 1)
    elif k == 3:
        # limits far above whose low bits are small
        x = g.pick([x for x in PARAMS if x not in ("gasPriceFactor", "gasPerByte")])
        p[x] = g.pick([2**8, 2**16, 2**32, 2**63]) + g.n(0, 1)
    else:
        for x in g.r.sample(sorted(u), g.pick([1, 1, 2, len(u)])):
            p[x] = max(0, u[x] + g.pick([-1, 0, 0, 1]))
    if g.p(0.3):
        # unrelated parameters small, related ones ample: each limit is governed by its own
        for x in PARAMS:
            if x not in u and x not in ("gasPriceFactor", "gasPerByte"):
                p[x] = g.pick([0, 1])


def mut_dup(g, t, p, h):
    ins = t["inputs"]
    kinds = (COIN, MSG, ("contract",))
    groups = [[i for i in ins if i["t"] in ks] for ks in kinds]
    for q, ks in zip(groups, kinds):
        while len(q) < 2 and g.p(0.6) and not ("contract" in ks and t["k"] == "create"):
            i = g.input(g.pick(ks), nw=max(0, len(t["wits"]) - 1))
            if i["t"] == "contract":
                t["outputs"].append({"t": "contract", "inix": len(ins), "broot": Z32, "sroot": Z32})
            else:
                i["amount"] = g.smallw()
            ins.append(i)
            q.append(i)
    cand = [q for q in groups if len(q) > 1]
    if cand:
        q = g.pick(cand)
        a, b = g.r.sample(q, 2)
        f = "utxo" if a["t"] in COIN else "mid" if a["t"] in MSG else "cid"
        k = g.n(0, 5)
        if k < 3:
            b[f] = dict(a[f]) if f == "utxo" else a[f]
        elif f == "utxo":
            b[f] = dict(a[f])
            if k == 3:
                b[f]["ix"] = a[f]["ix"] ^ (1 << g.n(0, 7))
            else:
                x = g.n(0, 31)
                s = a[f]["id"]
                b[f]["id"] = s[:2 * x] + format(int(s[2 * x:2 * x + 2], 16) ^ (1 << g.n(0, 7)), "02x") + s[2 * x + 2:]
        else:
            x = g.n(0, 31)
            s = a[f]
            b[f] = s[:2 * x] + format(int(s[2 * x:2 * x + 2], 16) ^ (1 << g.n(0, 7)), "02x") + s[2 * x + 2:]
    # a coin and a contract with the same utxo id are fine
    if g.p(0.3) and groups[0] and groups[2]:
        g.pick(groups[2])["utxo"] = dict(g.pick(groups[0])["utxo"])
    if g.p(0.2) and groups[1] and groups[2]:
        g.pick(groups[2])["cid"] = g.pick(groups[1])["mid"]


def mut_pair(g, t, p, h):
    ins, outs = t["inputs"], t["outputs"]
    x = g.lit(255)
    if x is not None:
        outs.append({"t": "contract", "inix": x, "broot": Z32, "sroot": g.b32()})
        return
    for _ in range(g.pick([1, 1, 2])):
        k = g.n(0, 8)
        cs = [o for o in outs if o["t"] == "contract"]
        if k == 0 and cs:
            outs.remove(g.pick(cs))
        elif k == 1 and cs:
            outs.insert(g.n(0, len(outs)), dict(g.pick(cs)))
        elif k == 2 and cs:
            g.pick(cs)["inix"] = g.pick([0, len(ins), max(0, len(ins) - 1), 255, g.n(0, len(ins) + 1)])
        elif k == 3:
            outs.append({"t": "contract", "inix": g.n(0, len(ins) + 1), "broot": Z32, "sroot": g.b32()})
        elif k == 4 and len(cs) > 1:
            a, b = g.r.sample(cs, 2)
            a["inix"], b["inix"] = b["inix"], a["inix"]
        elif k == 5:
            i = g.input("contract")
            i["cid"] = g.hex(32)
            n = g.n(0, len(ins))
            ins.insert(n, i)
            if g.p(0.5):
                for o in outs:
                    if o["t"] == "contract" and o["inix"] >= n:
                        o["inix"] += 1
                outs.append({"t": "contract", "inix": n, "broot": g.b32(), "sroot": g.b32()})
        elif k == 6:
            i = g.input("contract")
            i["cid"] = g.hex(32)
            ins.append(i)
            outs.append({"t": "contract", "inix": len(ins) - 1, "broot": g.b32(), "sroot": g.b32()})
        elif k == 7 and len(ins) > 1:
            a, b = g.r.sample(range(len(ins)), 2)
            ins[a], ins[b] = ins[b], ins[a]
        g.r.shuffle(outs) if g.p(0.3) else None


def mut_asset(g, t, p, h):
    outs = t["outputs"]
    for _ in range(g.pick([1, 1, 2, 3])):
        k = g.n(0, 6)
        cc = [o for o in outs if o["t"] in ("coin", "change")]
        if k == 0 and cc:
            g.pick(cc)["asset"] = g.asset()
        elif k == 1:
            outs.append({"t": "change", "to": g.b32(), "amount": g.w(), "asset": g.asset()})
        elif k == 2:
            outs.append({"t": "coin", "to": g.b32(), "amount": W(0), "asset": g.asset()})
        elif k == 3:
            ch = [o for o in outs if o["t"] == "change"]
            if ch:
                outs.insert(g.n(0, len(outs)), dict(g.pick(ch), to=g.b32()))
        elif k == 4:
            outs.append(g.output(g.pick(["variable", "message"])))
        elif k == 5:
            ins = [i for i in t["inputs"] if i["t"] != "contract"]
            if ins:
                t["inputs"].remove(g.pick(ins))
                for o in outs:
                    if o["t"] == "contract" and o["inix"] > 0 and g.p(0.5):
                        o["inix"] -= 1
        elif k == 6 and t["inputs"]:
            n = g.n(0, len(t["inputs"]) - 1)
            if t["inputs"][n]["t"] in COIN:
                t["inputs"][n]["asset"] = g.asset()


def mut_ledger(g, t, p, h):
    """exact coverage, off by one, overflow of sums and of fees"""
    val = [i for i in t["inputs"] if i["t"] != "contract"]
    if not val and g.p(0.7):
        i = g.input("coinPredicate")
        i["pred"], i["asset"] = "24", Z32
        i["owner"] = {"pred": "24"}
        t["inputs"].append(i)
        val = [i]
    p["gasPriceFactor"] = g.pick([1, 2, 3, 7, 10**9, 2**32, 2**64 - 1])
    p["gasPerByte"] = g.pick([0, 1, 4, 1000])
    p["maxGasPerTx"] = 2**64 - 1
    t["price"] = W(g.pick([0, 1, 2, 1000, 2**32, g.word()]))
    t["limit"] = W(g.pick([0, 1, 10**5, g.word()]) if g.p(0.5) else int(t["limit"], 16))
    k = g.n(0, 5)
    if k == 0 and val:
        # sums around 2**64
        for i in val:
            i["amount"] = W(g.pick([2**63, 2**63 - 1, 2**64 - 1, 2**64 - 2, 1, 0, 2**62]))
    if k == 1:
        for o in t["outputs"]:
            if o["t"] == "coin":
                o["amount"] = g.w()
    if k >= 2 and val:
        # spend an asset completely, +- 1; the base asset also pays the fee
        by = {}
        for i in val:
            by.setdefault(i["asset"] if i["t"] in COIN else Z32, []).append(i)
        a = g.pick(sorted(by))
        outs = [o for o in t["outputs"] if o["t"] == "coin" and o["asset"] == a]
        if not outs and g.p(0.7):
            outs = [{"t": "coin", "to": g.b32(), "amount": W(g.n(0, 1000)), "asset": a}]
            t["outputs"] += outs
        spent = sum(int(o["amount"], 16) for o in outs)
        need = spent + (fees(t, p)[1] if a == Z32 else 0) + g.pick([-1, 0, 0, 1])
        if 0 <= need:
            share = by[a]
            rest = need
            for i in share[:-1]:
                x = g.n(0, min(rest, 2**64 - 1))
                i["amount"] = W(x)
                rest -= x
            share[-1]["amount"] = W(min(rest, 2**64 - 1))
    if g.p(0.5):
        # whatever else, pay for the fee
        f = fees(t, p)[1]
        for i in val:
            if (i["asset"] if i["t"] in COIN else Z32) == Z32 and f < 2**63:
                i["amount"] = W(min(2**64 - 1, int(i["amount"], 16) + f))
                break


def mut_auth(g, t, p, h):
    ins = t["inputs"]
    if not ins:
        return
    for _ in range(g.pick([1, 1, 2])):
        k = g.n(0, 13)
        sigs = [n for n, w in enumerate(t["wits"]) if isinstance(w, dict)]
        i = g.pick(ins)
        own = "owner" if i["t"] in COIN else "recipient"
        if k == 0 and sigs:
            t["wits"][g.pick(sigs)]["flip"] = g.n(0, 511)
        elif k == 1 and sigs:
            t["wits"][g.pick(sigs)]["sig"] = g.n(0, 4)
        elif k == 2 and sigs:
            t["wits"][g.pick(sigs)]["cut"] = g.pick([1, 8, 32, 64])
        elif k == 3 and sigs:
            t["wits"][g.pick(sigs)]["ext"] = g.pick([1, 8, 64])
        elif k == 4 and sigs:
            t["wits"][g.pick(sigs)]["msg"] = g.b32()
        elif k == 5 and i["t"] in SIGNED:
            i["wix"] = g.pick([0, len(t["wits"]), max(0, len(t["wits"]) - 1), 255])
        elif k == 6 and i["t"] != "contract":
            i[own] = g.pick([{"key": g.n(0, 4)}, {"pred": "24"}, g.b32()])
        elif k == 13 and isinstance(i.get(own), dict):
            i[own] = dict(i[own], near=8 * g.pick([0, 30, 31, g.n(0, 31)]) + g.n(0, 7))
        elif k == 7 and i["t"] in PRED:
            s = i["pred"]
            x = g.n(0, len(s) // 2 - 1) if s else 0
            i["pred"] = (s[:2 * x] + format(int(s[2 * x:2 * x + 2], 16) ^ (1 << g.n(0, 7)), "02x") + s[2 * x + 2:]) if s else "24"
        elif k == 8 and i["t"] in PRED:
            i["pred"] += "00" * g.pick([1, 8])
        elif k == 9 and sigs:
            t["wits"][g.pick(sigs)] = g.pick(["", g.hex(64), "00" * 64, "ff" * 64, "00" * 63, "00" * 65])
        elif k == 10 and t["wits"]:
            t["wits"].insert(g.n(0, len(t["wits"])), "")
        elif k == 11 and t["wits"]:
            t["wits"].pop()
        elif k == 12 and i["t"] in PRED:
            i["pred"] = ""


def mut_create(g, t, p, h):
    if t["k"] != "create":
        if g.p(0.5):
            t["outputs"].insert(g.n(0, len(t["outputs"])), g.output("created"))
        return
    for _ in range(g.pick([1, 1, 2])):
        k = g.n(0, 13)
        if k == 0:
            t["bcl"] = W(int(t["bcl"], 16) + g.pick([-1, 1, 2**32, 2**62]))
        elif k == 1:
            t["bwi"] = g.pick([0, 1, len(t["wits"]), max(0, len(t["wits"]) - 1), 255])
            if g.p(0.5) and t["bwi"] < len(t["wits"]) and isinstance(t["wits"][t["bwi"]], str):
                t["bcl"] = W(len(t["wits"][t["bwi"]]) // 8)
        elif k == 2:
            t["wits"][0] = t["wits"][0] + "00" * g.pick([1, 2, 3, 4]) if t["wits"] and isinstance(t["wits"][0], str) else g.hex(4)
        elif k == 3 and len(t["slots"]) > 1:
            g.r.shuffle(t["slots"])
        elif k == 4 and len(t["slots"]) > 1:
            n = g.n(0, len(t["slots"]) - 2)
            t["slots"][n], t["slots"][n + 1] = t["slots"][n + 1], t["slots"][n]
        elif k == 5 and t["slots"]:
            n = g.n(0, len(t["slots"]) - 1)
            t["slots"].insert(n, {"k": t["slots"][n]["k"], "v": g.b32()})
        elif k == 6:
            t["inputs"].insert(g.n(0, len(t["inputs"])), dict(g.input("contract"), cid=g.hex(32)))
        elif k == 7:
            t["outputs"].insert(g.n(0, len(t["outputs"])), g.output("contract", len(t["inputs"])))
        elif k == 8:
            t["outputs"].insert(g.n(0, len(t["outputs"])), g.output("variable"))
        elif k == 9:
            t["outputs"].insert(g.n(0, len(t["outputs"])), g.output("created"))
        elif k == 10:
            t["outputs"].insert(g.n(0, len(t["outputs"])), g.output("change"))
            if g.p(0.7):
                i = g.input("coinPredicate")
                i.update(pred="24", owner={"pred": "24"}, asset=t["outputs"][-1].get("asset", g.asset()), utxo={"id": g.hex(32), "ix": 1}, amount=W(1))
                t["inputs"].append(i)
                for o in t["outputs"]:
                    if o["t"] == "change" and not any(x.get("asset") == o["asset"] for x in t["inputs"]):
                        i["asset"] = o["asset"]
        elif k == 11:
            p["maxStorageSlots"] = max(0, len(t["slots"]) + g.pick([-1, 0]))
        elif k == 12:
            n = len(t["wits"][t["bwi"]]) // 2 if t["bwi"] < len(t["wits"]) and isinstance(t["wits"][t["bwi"]], str) else 64
            p["contractMaxSize"] = max(0, n + g.pick([-1, 0, 1]))
        elif k == 13:
            t["slots"] = g.slots(g.n(2, 5))
            if g.p(0.5):
                s = t["slots"]
                a = g.n(0, len(s) - 2)
                # keys that differ only in the last bytes, in either order
                key = g.hex(32)
                s[a]["k"], s[a + 1]["k"] = key, key[:62] + g.hex(1)
                if g.p(0.7):
                    s.sort(key=lambda x: x["k"])


def mut_mint(g, t, p, h):
    for _ in range(g.pick([0, 1, 1, 2])):
        k = g.n(0, 5)
        if k == 0:
            t["ptr"]["h"] = W(max(0, min(2**32 - 1, h + g.pick([-1, 1]))))
        elif k == 1 and t["outputs"]:
            o = dict(g.pick(t["outputs"]))
            t["outputs"].insert(g.n(0, len(t["outputs"])), dict(o, to=g.b32()))
        elif k == 2:
            t["outputs"].insert(g.n(0, len(t["outputs"])), g.output())
        elif k == 3:
            p["maxOutputs"] = max(0, len(t["outputs"]) + g.pick([-1, 0, 1]))
        elif k == 4:
            p["maxOutputs"] = g.pick([0, 1, 2**8, 2**16, 2**32, 2**32 + 1, 2**63])
        elif k == 5 and len(t["outputs"]) > 1:
            a, b = g.r.sample(t["outputs"], 2)
            if "asset" in a and "asset" in b:
                s = a["asset"]
                x = g.n(0, 31)
                b["asset"] = s[:2 * x] + format(int(s[2 * x:2 * x + 2], 16) ^ 1, "02x") + s[2 * x + 2:]


MUTS = {"C01": mut_limit, "C02": mut_dup, "C03": mut_pair, "C04": mut_asset, "C05": mut_ledger, "C07": mut_auth, "C14": mut_create}


def spice(g, t, money=True):
    """content on which no rule depends, at its extremes"""
    word = lambda: W(g.pick([0, 0, 1, 2**32, 2**63, 2**64 - 1, 2**64 - 1, g.word()]))
    h32 = lambda: g.pick([Z32, "ff" * 32, g.b32()])
    ptr = lambda: g.pick([{"h": W(0), "i": W(0)}, {"h": W(2**32 - 1), "i": W(65535)}, g.ptr()])
    vals = {"maturity": word, "nonce": word, "ptr": ptr, "sender": h32, "broot": h32, "sroot": h32, "to": h32, "rroot": h32, "salt": h32,
            "pdata": lambda: g.pick(["", "00" * 8, g.blob()]), "data": lambda: g.pick(["", "00" * 32, g.blob(), g.hex(g.n(60, 300))])}
    if money:
        vals.update(amount=word, price=word)
    items = t["inputs"] + t["outputs"]
    every = g.p(0.3)
    for x in items + [t]:
        if not (every or g.p(0.4)):
            continue
        fs = [f for f in vals if f in x and not (x is t and f == "maturity")]
        if x.get("t") == "contract" and "cid" in x and g.p(0.5):
            x["utxo"] = {"id": h32(), "ix": g.u8()}
        for f in g.r.sample(fs, g.n(0, len(fs))):
            x[f] = vals[f]()


WIDE = ("owner", "recipient", "sender", "asset", "mid", "cid", "broot", "sroot", "to", "rroot", "salt")


def sameness(g, t, owners=0.0):
    """fields on which no rule depends, equal to other fields of the transaction; with owners, also
    those which are to name the owner (who is then nobody's address)"""
    spots = [(x, f) for x in [t] + t["inputs"] + t["outputs"] for f in WIDE if f in x]
    spots += [(x["utxo"], "id") for x in t["inputs"] if "utxo" in x]
    from_ = lambda x: [y[f] for y, f in spots if (y is x or y is x.get("utxo") or g.p(0.3)) and y.get(f) is not None] or [Z32]
    for x in g.r.sample(t["inputs"] + t["outputs"], len(t["inputs"] + t["outputs"])) + [t]:
        if not g.p(0.7):
            continue
        k = x.get("t")
        vals = from_(x)
        plain = [v for v in vals if isinstance(v, str)] or [Z32]
        if k in MSG and g.p(0.8):
            x["sender"] = copy.deepcopy(g.pick([x["recipient"], x["recipient"], g.pick(vals), {"key": g.n(0, 4)}]))
        if "utxo" in x and g.p(0.4):
            x["utxo"] = {"id": g.pick(plain), "ix": x["utxo"]["ix"]}
        if k in ("contract",) and "cid" in x:
            for f in ("broot", "sroot"):
                if g.p(0.5):
                    x[f] = g.pick(plain + [x["cid"], x.get("sroot")])
        for f in ("to", "rroot"):
            if f in x and g.p(0.6):
                x[f] = copy.deepcopy(g.pick(vals if f == "to" else plain))
        if k in SIGNED + PRED and g.p(owners):
            o = "owner" if k in COIN else "recipient"
            x[o] = g.pick([x["asset"] if k in COIN else x["mid"], g.pick(plain)])
        words = [x[f] for f in ("amount", "nonce") if f in x] + [t["price"], t["limit"]] if "price" in t else []
        if "nonce" in x and words and g.p(0.6):
            x["nonce"] = g.pick(words)


def ledger_corners(g):
    """every fee factor at its extremes, against balances that just (do not) suffice"""
    for price, limit, gpb, factor in product((0, 1, 2**64 - 1), (0, 1, 2**64 - 1), (0, 1, 2**64 - 1), (1, 2**64 - 1)):
        for short in (-1, 0, 1):
            t, p, h = broad(g, g.pick(["script", "create"]), 2, ["coinPredicate", "messagePredicate"])
            p.update(gasPerByte=gpb, gasPriceFactor=factor, maxGasPerTx=2**64 - 1)
            t["price"], t["limit"] = W(price), W(limit)
            x = g.n(1, 99)
            t["outputs"].append({"t": "coin", "to": g.b32(), "amount": W(x), "asset": Z32})
            f = fees(t, p)[1]
            need = (f if f < 2**64 else 0) + x + short
            t["inputs"][0]["amount"], t["inputs"][1]["amount"] = W(min(need, 2**64 - 1)), W(0)
            yield g.check(t, p, h, "ws,basic")


def heights(g):
    """maturities and heights at the edges of words, and next to each other"""
    edges = g.lits or [x + d for x in (0, 2**8, 2**16, 2**31, 2**32, 2**63, 2**64 - 1) for d in (-2, -1, 0, 1) if 0 <= x + d < 2**64]
    for m in edges:
        for h in {m, max(0, m - 1), min(2**64 - 1, m + 1), g.pick(edges), g.word()}:
            t, p, _ = broad(g, g.pick(["script", "create"]), 1, ["coinPredicate"])
            t["maturity"] = W(m)
            yield g.check(t, p, h, g.pick(["ws", "ws,basic"]))


def words_limits(g):
    """gas limits and their maximum at the edges of words"""
    edges = g.lits or [x + d for x in (0, 2**8, 2**16, 2**32, 2**63, 2**64 - 1) for d in (-1, 0, 1) if 0 <= x + d < 2**64]
    for m in edges:
        for l in {m, max(0, m - 1), min(2**64 - 1, m + 1), g.pick(edges)}:
            t, p, h = broad(g, g.pick(["script", "create"]), 1, ["coinPredicate"])
            t["limit"], p["maxGasPerTx"] = W(l), m
            yield g.check(t, p, h, "ws")


def far_ledger(g):
    """more coin outputs, or inputs, than one byte counts"""
    for n in (255, 256, 257, 300):
        for extra in (-1, 0, 1):
            t, p, h = broad(g, g.pick(["script", "create"]), 2, ["coinPredicate", "messagePredicate"])
            p.update(gasPriceFactor=1, maxOutputs=400, maxInputs=400)
            t["inputs"][0]["amount"], t["inputs"][1]["amount"] = W(n - 7), W(7)
            t["outputs"] = [{"t": "coin", "to": Z32, "amount": W(1), "asset": Z32} for _ in range(n)]
            t["outputs"][g.pick([0, n - 1, n - 1])]["amount"] = W(1 + extra)
            yield g.check(t, p, h, "ws,basic")
            t, p, h = broad(g, g.pick(["script", "create"]), n, ["coinPredicate"])
            p.update(gasPriceFactor=1, maxOutputs=400, maxInputs=400)
            for i in t["inputs"]:
                i["amount"] = W(1)
            t["outputs"] = [{"t": "coin", "to": Z32, "amount": W(n + extra), "asset": Z32}]
            yield g.check(t, p, h, "ws,basic")


def tx_cases(g, n, focus, what, kinds=("script", "script", "create"), plain=0.15, other=0.15, wide=0.02):
    for _ in range(n):
        nin = g.lit(40, 0.05)
        nin = nin if nin is not None else g.pick([9, 17, 33, 64, 129, 200, 254]) if g.p(wide) else g.pick([3, 4, 5, 7]) if focus in ("C02", "C03") and g.p(0.6) else None
        t, p, h = g.valid(g.pick(kinds), nin=nin)
        orig = copy.deepcopy(t)
        if not g.p(plain):
            (MUTS[focus] if focus in MUTS else MUTS[g.pick(sorted(MUTS))])(g, t, p, h)
            if g.p(other):
                MUTS[g.pick(sorted(MUTS))](g, t, p, h)
        if g.p(0.4):
            spice(g, t, money=focus != "C05" and g.p(0.7))
        if g.p(0.3):
            sameness(g, t, owners=0.15 if focus == "C07" else 0)
        w = what(g) if callable(what) else what
        c = g.check(t, p, h, w)
        if w == "all":
            # what else is checked in between must not matter: the valid original, and another variation
            r = random.Random(str(sorted(t)) + str(h) + t.get("limit", ""))
            u = copy.deepcopy(orig)
            for x in range(len(u.get("wits", []))):
                if r.random() < 0.5:
                    u["wits"][x] = {"sig": r.randint(0, 3)} if r.random() < 0.5 else ""
            c["between"] = json.dumps([x for x in (orig, u, dict(copy.deepcopy(t), wits=orig["wits"]) if "wits" in t else t) if r.random() < 0.7])
        yield c


def big_cases(g):
    """counts around 255/256, where u8 indexes and the default limits meet"""
    t, p, h = g.valid("script", nin=0)
    for n in (254, 255, 256):
        a = dict(t, inputs=[], outputs=[dict(g.output("variable"), amount=W(0)) for _ in range(n)], wits=[])
        yield g.check(a, dict(DEFAULTS), h, "ws,full")
        b = dict(t, inputs=[], outputs=[], wits=[""] * n)
        yield g.check(b, dict(DEFAULTS), h, "ws,full")
        ins = []
        for k in range(n):
            i = g.input("coinPredicate")
            i.update(pred="24", pdata="", owner={"pred": "24"}, utxo={"id": format(k // 200, "064x"), "ix": k % 200}, amount=W(k), asset=Z32)
            ins.append(i)
        c = dict(t, inputs=ins, outputs=[], wits=[])
        yield g.check(c, dict(DEFAULTS), h, "ws")


# ------------------------------------------------------------------------- identity
def malleable_sites(t):
    """(path, kind) of every field, with whether it is malleable -- used only to aim changes"""
    for f in t:
        if f in ("k", "inputs", "outputs", "wits", "slots", "ptr"):
            continue
        yield (f,)
    for n, s in enumerate(t.get("slots", [])):
        yield ("slots", n, "k")
        yield ("slots", n, "v")
    if t["k"] == "mint":
        yield ("ptr", "h")
        yield ("ptr", "i")
    for lst in ("inputs", "outputs"):
        for n, i in enumerate(t.get(lst, [])):
            for f in i:
                if f == "t":
                    continue
                if isinstance(i[f], dict) and f in ("utxo", "ptr"):
                    for q in i[f]:
                        yield (lst, n, f, q)
                else:
                    yield (lst, n, f)


U8F = {"ix", "wix", "bwi", "inix"}
WORDF = {"price", "limit", "maturity", "amount", "nonce", "bcl"}
BLOBF = {"script", "data", "pred", "pdata"}


def change(g, t, path):
    """a copy of t with the field at path changed by one bit, a random value, or length"""
    import copy
    t = copy.deepcopy(t)
    o = t
    for q in path[:-1]:
        o = o[q]
    f = path[-1]
    v = o[f]
    if isinstance(v, dict):
        o[f] = g.hex(32)
    elif f in U8F:
        o[f] = v ^ (1 << g.n(0, 7))
    elif f == "i" or (f == "h" and len(path) > 1):
        o[f] = W(int(v, 16) ^ (1 << g.n(0, 15 if f == "i" else 31)))
    elif f in BLOBF:
        k = g.n(0, 3)
        if v and k < 2:
            x = g.n(0, len(v) // 2 - 1)
            o[f] = v[:2 * x] + format(int(v[2 * x:2 * x + 2], 16) ^ (1 << g.n(0, 7)), "02x") + v[2 * x + 2:]
        elif k == 2 and len(v) > 2:
            o[f] = v[:-2]
        else:
            o[f] = v + "00"
    else:
        n = len(v) * 4
        o[f] = format(int(v, 16) ^ (1 << g.n(0, n - 1)), "0%dx" % len(v))
    return t


def structural(g, t):
    """a copy with another order, number or kind of items"""
    import copy
    t = copy.deepcopy(t)
    lists = [f for f in ("inputs", "outputs", "slots", "wits") if f in t]
    f = g.pick(lists)
    k = g.n(0, 5)
    l = t[f]
    if k == 0 and len(l) > 1:
        a, b = g.r.sample(range(len(l)), 2)
        l[a], l[b] = l[b], l[a]
    elif k == 1 and l:
        l.pop(g.n(0, len(l) - 1))
    elif k == 2:
        l.insert(g.n(0, len(l)), {"inputs": lambda: g.input(raw=True), "outputs": g.output, "slots": lambda: {"k": g.b32(), "v": g.b32()}, "wits": g.wit}[f]())
    elif k == 3 and t.get("inputs"):
        i = g.pick(t["inputs"])
        swap = {"coinSigned": "coinPredicate", "coinPredicate": "coinSigned", "messageSigned": "messagePredicate", "messagePredicate": "messageSigned"}
        if i["t"] in swap:
            i["t"] = swap[i["t"]]
            if i["t"] in SIGNED:
                i.pop("pred"), i.pop("pdata")
                i["wix"] = 0
            else:
                i.pop("wix")
                i["pred"], i["pdata"] = "24", ""
    elif k == 4 and t["outputs"]:
        o = g.pick(t["outputs"])
        if o["t"] in ("coin", "change", "variable"):
            o["t"] = g.pick([x for x in ("coin", "change", "variable") if x != o["t"]])
    elif k == 5:
        # move a byte from one variable-length field to its neighbour
        if t["k"] == "script" and t["script"]:
            t["data"], t["script"] = t["script"][-2:] + t["data"], t["script"][:-2]
        for i in t.get("inputs", []):
            if i.get("pred") and len(i["pred"]) > 2 and g.p(0.5):
                i["pdata"], i["pred"] = i["pred"][-2:] + i["pdata"], i["pred"][:-2]
    return t


def idpairs(g, n, kinds=None):
    for _ in range(n):
        t = g.anytx(kind=g.pick(kinds) if kinds else None, hi=4)
        while not (t.get("inputs") or t["outputs"]):
            t = g.anytx(kind=t["k"], hi=4)
        b = t
        for _ in range(g.pick([1, 1, 1, 2])):
            b = structural(g, b) if g.p(0.25) else change(g, b, g.pick(list(malleable_sites(b))))
        yield {"op": "idpair", "a": t, "b": b}


def malleable_pairs(g, n):
    """pairs that differ in malleable fields only (as far as the aim goes; the specification decides)"""
    for _ in range(n):
        t = g.anytx(kind=g.pick(["script", "create"]), hi=5)
        b = t
        for _ in range(g.pick([1, 1, 2, 5])):
            sites = [s for s in malleable_sites(b) if is_malleable(b, s)]
            k = g.n(0, 5)
            if k == 0 or not sites:
                b = dict(b, wits=[g.wit() for _ in range(g.n(0, 4))])
            else:
                b = change(g, b, g.pick(sites))
        yield {"op": "idpair", "a": t, "b": b}


def is_malleable(t, s):
    if s == ("rroot",):
        return True
    if s[0] == "inputs":
        i = t["inputs"][s[1]]
        return (i["t"] in COIN and s[2] == "ptr") or (i["t"] == "contract" and s[2] in ("ptr", "utxo", "broot", "sroot"))
    if s[0] == "outputs":
        o = t["outputs"][s[1]]
        return (o["t"] == "contract" and s[2] in ("broot", "sroot")) or (o["t"] == "change" and s[2] == "amount") or o["t"] in ("message", "variable")
    return False


# ------------------------------------------------------------------------- equality, forms
def leaves(v, path=()):
    """paths of the plain values inside a record"""
    if isinstance(v, dict):
        for f in v:
            if f != "t" and f != "k" or len(v) <= 2:
                yield from leaves(v[f], path + (f,))
    elif isinstance(v, list):
        for n, x in enumerate(v):
            yield from leaves(x, path + (n,))
    else:
        yield path


def nudge(g, v):
    """a copy that differs in one plain value"""
    import copy
    v = copy.deepcopy(v)
    paths = [p for p in leaves(v) if not (p and p[-1] in ("t", "pcid", "reason")) and not (p and p[0] == "result") and not {"sig", "key", "near", "flip", "cut", "ext", "msg"} & set(p)]
    if not paths:
        return v
    p = g.pick(paths)
    o = v
    for q in p[:-1]:
        o = o[q]
    f, x = p[-1], o[p[-1]]
    if isinstance(x, bool):
        o[f] = not x
    elif isinstance(x, int):
        o[f] = x ^ (1 << g.n(0, 7))
    elif f == "i" or f == "h":
        o[f] = W(int(x, 16) ^ (1 << g.n(0, 15 if f == "i" else 31)))
    elif f in BLOBF or "wits" in p:
        k = g.n(0, 4)
        if x and k < 3:
            y = g.n(0, len(x) // 2 - 1)
            o[f] = x[:2 * y] + format(int(x[2 * y:2 * y + 2], 16) ^ (1 << g.n(0, 7)), "02x") + x[2 * y + 2:]
        else:
            o[f] = x[:-2] if k == 3 and x else x + "00"
    elif x:
        o[f] = format(int(x, 16) ^ (1 << g.n(0, 4 * len(x) - 1)), "0%dx" % len(x))
    return v


def some_value(g, ty):
    return {"input": lambda: g.input(raw=True), "output": g.output, "witness": lambda: g.hex(g.pick([0, 1, 7, 8, 9, 40])), "contract": lambda: g.hex(g.pick([0, 1, 8, 33])),
            "slot": lambda: g.slots(1)[0], "utxo": g.utxo, "ptr": g.ptr, "fee": lambda: {f: g.w() for f in ("min", "total", "minGas", "maxGas")},
            "params": lambda: {f: g.w() for f in PARAMS}, "receipt": lambda: receipt(g)}[ty]()


VALUES = ["input", "input", "output", "output", "witness", "contract", "slot", "utxo", "ptr", "fee", "params", "receipt", "receipt"]


def near_value(g, ty, a):
    if ty in ("witness", "contract"):
        return nudge(g, {"data": a})["data"]
    b = nudge(g, a)
    if ty == "receipt" and a["t"] == "panic" and g.p(0.6):
        b = dict(a if g.p(0.7) else b, pcid=g.pick(["none", Z32, g.b32()]))
    return b


def relate_cases(g, n):
    for c in idpairs(g, n // 3):
        yield {"op": "relate", "ty": "tx", "a": c["a"], "b": c["b"]}
    for _ in range(n // 6):
        t = g.anytx(hi=3)
        yield {"op": "relate", "ty": "tx", "a": t, "b": t if g.p(0.15) else nudge(g, t) if g.p(0.8) else g.anytx(kind=t["k"], hi=3)}
    for _ in range(n // 2):
        ty = g.pick(VALUES)
        a = some_value(g, ty)
        b = a
        for _ in range(g.pick([0, 1, 1, 1, 1, 2, 3])):
            b = near_value(g, ty, b)
        yield {"op": "relate", "ty": ty, "a": a, "b": b if g.p(0.95) else some_value(g, ty)}
    for _ in range(n // 10):
        t, p, h = g.valid(g.pick(["script", "create"]))
        side = lambda p=p, h=h, **kw: {"tx": t, "height": W(h), "params": g.params(p), "full": False, **kw}
        k = g.n(0, 4)
        b = side()
        if k == 1:
            b = side(h=h + 1)
        elif k == 2:
            b = side(p=dict(p, gasPerByte=p["gasPerByte"] + 1))
        elif k == 3:
            b = side(full=True)
        elif k == 4:
            b = side(tx=dict(t, wits=t["wits"] + ["00"]))
        yield {"op": "relate", "ty": "checked", "a": side(), "b": b}


def serde_cases(g, n):
    for _ in range(n // 3):
        yield {"op": "serde", "ty": "tx", "v": g.anytx(hi=3)}
    for _ in range(n - n // 3):
        ty = g.pick(VALUES)
        yield {"op": "serde", "ty": ty, "v": some_value(g, ty)}


# ------------------------------------------------------------------------- encoding
def extremes(v, g=None, mixed=0):
    """every leaf of a value at either end while all the others are at the other end, and mixtures"""
    def low(x, f):
        return 0 if isinstance(x, int) else "" if f in BLOBF and f != "pred" else "00" * max(1, len(x) // 2) if f == "pred" else "00" * (len(x) // 2)

    def high(x, f, full=True):
        if isinstance(x, int):
            return 255 if full else 1
        if f in BLOBF:
            return "ff" * (9 if full else 1)
        n = len(x) // 2
        # (positions in blocks are narrower than a word)
        k = {"h": 4, "i": 2}.get(f, n)
        return ("00" * (n - k) + "ff" * k) if full else "00" * (n - 1) + "01"
    keys = [q for q in leaves(v) if q[-1] != "t"]

    def filled(f):
        x = json.loads(json.dumps(v))
        for q in keys:
            y = x
            for r in q[:-1]:
                y = y[r]
            y[q[-1]] = f(y[q[-1]], q)
        return x
    yield filled(lambda x, q: low(x, q[-1]))
    yield filled(lambda x, q: high(x, q[-1]))
    for one in keys:
        yield filled(lambda x, q: high(x, q[-1]) if q == one else low(x, q[-1]))
        yield filled(lambda x, q: high(x, q[-1], False) if q == one else low(x, q[-1]))
        yield filled(lambda x, q: low(x, q[-1]) if q == one else high(x, q[-1]))
    for _ in range(mixed):
        at = {q: g.n(0, 3) for q in keys}
        mix = lambda x, q: [low(x, q[-1]), high(x, q[-1], False), high(x, q[-1]), x][at[q]]
        yield filled(mix)
        at[g.pick(keys)] = g.n(0, 2)
        yield filled(mix)


def each_kind(g):
    """a value of every kind of every type"""
    for t in INKINDS:
        yield "input", g.input(t, raw=True)
    for t in OUTKINDS:
        yield "output", g.output(t)
    yield "slot", {"k": g.b32(), "v": g.b32()}
    yield "utxo", g.utxo()
    yield "ptr", g.ptr()
    for k in ("script", "create", "mint"):
        t = g.anytx(kind=k, hi=1)
        yield "tx", dict(t, **{f: [] for f in ("inputs", "outputs", "wits", "slots") if f in t})


def within(g, x, ty):
    """an item as part of a transaction"""
    t = g.anytx(kind="script" if ty != "slot" else "create", hi=1)
    t.update({f: [] for f in ("inputs", "outputs", "wits", "slots") if f in t})
    t[{"input": "inputs", "output": "outputs", "slot": "slots"}[ty]] = [x]
    return t


def extreme_values(g, mixed=8):
    for ty, v in each_kind(g):
        for x in extremes(v, g, mixed):
            yield ty, x


def extreme_txs(g, mint=True):
    for ty, x in extreme_values(g):
        if ty == "tx" and (mint or x["k"] != "mint"):
            yield x
        elif ty in ("input", "output", "slot"):
            yield within(g, x, ty)


def extreme_pairs(g, mixed=30):
    """the all-low form against every form that differs from it in one place"""
    for ty, v in each_kind(g):
        if ty in ("utxo", "ptr"):
            continue
        xs = list(extremes(v))
        t = within(g, v, ty) if ty != "tx" else None
        put = lambda x: x if ty == "tx" else dict(t, **{{"input": "inputs", "output": "outputs", "slot": "slots"}[ty]: [x]})
        for k, x in enumerate(xs[2:]):
            yield put(xs[1] if k % 3 == 2 else xs[0]), put(x)
        # mixtures come in pairs that differ in one place at most
        ms = list(extremes(v, g, mixed))[len(xs):]
        for a, b in zip(ms[::2], ms[1::2]):
            yield put(a), put(b)


def vast(g):
    """byte strings longer than two bytes count"""
    n = lambda: g.n(65538, 140000)
    for kind in ("script", "create"):
        for f in ("script", "data", "wits", "pred", "pdata", "msg"):
            t = g.anytx(kind=kind, hi=1, raw=False)
            if f in ("script", "data"):
                if kind != "script":
                    continue
                t[f] = g.hex(n())
            elif f == "wits":
                t["wits"] = [g.hex(3), g.hex(n())]
            else:
                i = g.input("messagePredicate", raw=True)
                i["data" if f == "msg" else f] = g.hex(n())
                t["inputs"] = [i, g.input(raw=True)]
            yield t


def codec_cases(g, n):
    for k in range(n):
        ty = g.pick(["tx", "tx", "tx", "input", "input", "output", "witness", "slot", "utxo", "ptr"])
        v = {"tx": lambda: g.anytx(hi=3), "input": lambda: g.input(raw=True), "output": g.output, "witness": g.wit,
             "slot": lambda: {"k": g.b32(), "v": g.b32()}, "utxo": g.utxo, "ptr": g.ptr}[ty]()
        yield {"op": "codec", "ty": ty, "v": v}


def enc_word(n):
    return W(n)


def padhex(h):
    return h + "00" * (pad(len(h) // 2) - len(h) // 2)


def enc_input(i):
    L = lambda f: W(len(i.get(f, "")) // 2)
    P = lambda f: padhex(i.get(f, ""))
    ptr = lambda: i["ptr"]["h"] + i["ptr"]["i"]
    if i["t"] == "contract":
        return W(1) + i["utxo"]["id"] + W(i["utxo"]["ix"]) + i["broot"] + i["sroot"] + ptr() + i["cid"]
    if i["t"] in COIN:
        return (W(0) + i["utxo"]["id"] + W(i["utxo"]["ix"]) + i["owner"] + i["amount"] + i["asset"] + ptr() + W(i.get("wix", 0)) + i["maturity"]
                + L("pred") + L("pdata") + P("pred") + P("pdata"))
    return (W(2) + i["mid"] + i["sender"] + i["recipient"] + i["amount"] + i["nonce"] + W(i.get("wix", 0)) + L("data") + L("pred") + L("pdata")
            + P("data") + P("pred") + P("pdata"))


def enc_output(o):
    n = OUTKINDS.index(o["t"])
    if o["t"] == "contract":
        return W(1) + W(o["inix"]) + o["broot"] + o["sroot"]
    if o["t"] == "message":
        return W(2) + o["recipient"] + o["amount"]
    if o["t"] == "created":
        return W(5) + o["cid"] + o["sroot"]
    return W(n) + o["to"] + o["amount"] + o["asset"]


def enc_tx(t):
    """only used to produce byte strings worth decoding"""
    lens = lambda *f: "".join(W(len(t[x]) // (2 if isinstance(t[x], str) else 1)) for x in f)
    if t["k"] == "mint":
        return W(2) + t["ptr"]["h"] + t["ptr"]["i"] + lens("outputs") + "".join(map(enc_output, t["outputs"]))
    if t["k"] == "script":
        b = W(0) + t["price"] + t["limit"] + t["maturity"] + lens("script", "data", "inputs", "outputs", "wits") + t["rroot"] + padhex(t["script"]) + padhex(t["data"])
    else:
        b = (W(1) + t["price"] + t["limit"] + t["maturity"] + t["bcl"] + W(t["bwi"]) + lens("slots", "inputs", "outputs", "wits") + t["salt"]
             + "".join(s["k"] + s["v"] for s in t["slots"]))
    return b + "".join(map(enc_input, t["inputs"])) + "".join(map(enc_output, t["outputs"])) + "".join(W(len(w) // 2) + padhex(w) for w in t["wits"])


def some_encoding(g):
    ty = g.pick(["tx", "tx", "tx", "tx", "input", "input", "output", "witness", "slot", "utxo", "ptr"])
    if ty == "tx":
        t = g.anytx(hi=3)
        return (g.pick(["tx", "tx", t["k"]]), enc_tx(t))
    if ty == "input":
        return ty, enc_input(g.input(raw=True))
    if ty == "output":
        return ty, enc_output(g.output())
    if ty == "witness":
        w = g.wit()
        return ty, W(len(w) // 2) + padhex(w)
    if ty == "slot":
        return ty, g.hex(64)
    if ty == "utxo":
        return ty, g.hex(32) + W(g.u8())
    p = g.ptr()
    return ty, p["h"] + p["i"]


HOSTILE = [2**64 - 1, 2**64 - 7, 2**64 - 8, 2**63, 2**63 - 1, 2**61, 2**60, 2**59, 2**40, 2**32, 2**32 - 1, 2**31, 2**24, 65536, 1000, 256, 255, 0, 1, 3, 6, 7]


def hostile_cases(g, n):
    for k in range(n):
        ty, e = some_encoding(g)
        nb = len(e) // 2
        kind = g.n(0, 7)
        c = {"op": "decode", "ty": ty}
        if kind == 0:
            c["full"] = e
            cut = g.pick([0, 1, 7, 8, nb - 1, nb - 8, nb - 9, g.n(0, nb)])
            c["bytes"] = e[:2 * max(0, min(cut, nb - 1))]
        elif kind in (1, 2, 3):
            # a hostile word somewhere (mostly in the head, where the lengths are)
            words = nb // 8
            x = g.n(0, min(words - 1, 14) if g.p(0.7) else words - 1)
            b = e[:16 * x] + W(g.pick(HOSTILE) if g.p(0.8) else g.word()) + e[16 * x + 16:]
            if g.p(0.2):
                y = g.n(0, words - 1)
                b = b[:16 * y] + W(g.pick(HOSTILE)) + b[16 * y + 16:]
            c["bytes"] = b
        elif kind == 4:
            x = g.n(0, nb - 1)
            c["bytes"] = e[:2 * x] + g.hex(1) + e[2 * x + 2:]
        elif kind == 5:
            c["bytes"] = e + g.hex(g.pick([1, 8, 24]))
        elif kind == 6:
            c["bytes"] = g.hex(g.pick([0, 1, 7, 8, 9, 16, 40, 64, 104, 112, 168, g.n(0, 300)])) if g.p(0.3) else W(g.n(0, 6)) + g.hex(g.n(0, 300))
        else:
            c["bytes"] = e
            c["ty"] = g.pick(["tx", "script", "create", "mint", "input", "output", "witness", ty])
        yield c


def prefix_cases(g, n):
    """every word boundary (and some other cuts) of a few encodings"""
    for _ in range(n):
        ty, e = some_encoding(g)
        nb = len(e) // 2
        for cut in sorted(set(list(range(0, nb, 8)) + [nb - 1, nb - 4, 1])):
            if 0 <= cut < nb:
                yield {"op": "decode", "ty": ty, "full": e, "bytes": e[:2 * cut]}


def rhostile_cases(g, n):
    for _ in range(n):
        r = receipt(g)
        e = enc_receipt(r)
        nb = len(e) // 2
        k = g.n(0, 5)
        if k == 0:
            b = e[:2 * g.n(0, nb)]
        elif k in (1, 2):
            x = g.n(0, nb // 8 - 1)
            b = e[:16 * x] + W(g.pick(HOSTILE)) + e[16 * x + 16:]
        elif k == 3:
            b = W(g.n(0, 12)) + g.hex(g.n(0, 300))
        elif k == 4:
            x = g.n(0, nb - 1)
            b = e[:2 * x] + g.hex(1) + e[2 * x + 2:]
        else:
            b = e
        yield {"op": "rdecode", "bytes": b}


# ------------------------------------------------------------------------- receipts
RK = ["call", "return", "returnData", "panic", "revert", "log", "logData", "transfer", "transferOut", "scriptResult", "messageOut"]
RF = {"call": "id:b to:b amount:w asset:b gas:w param1:w param2:w pc:w is:w", "return": "id:b val:w pc:w is:w",
      "returnData": "id:b ptr:w len:w digest:b data:d pc:w is:w", "panic": "id:b reason:w pc:w is:w", "revert": "id:b ra:w pc:w is:w",
      "log": "id:b ra:w rb:w rc:w rd:w pc:w is:w", "logData": "id:b ra:w rb:w ptr:w len:w digest:b data:d pc:w is:w",
      "transfer": "id:b to:b amount:w asset:b pc:w is:w", "transferOut": "id:b to:b amount:w asset:b pc:w is:w",
      "messageOut": "mid:b sender:b recipient:b amount:w nonce:b len:w digest:b data:d"}


def receipt(g, t=None):
    t = t or g.pick(RK)
    v = {"t": t}
    if t == "scriptResult":
        return {"t": t, "result": g.pick([{"t": "success"}, {"t": "revert"}, {"t": "panic"}, {"t": "generic", "c": g.w()}, {"t": "generic", "c": W(g.n(0, 4))}]), "gasUsed": g.w()}
    for f in RF[t].split():
        f, k = f.split(":")
        v[f] = g.b32() if k == "b" else g.w() if k == "w" else g.blob()
    if t == "panic":
        # reason code in the top byte, raw instruction below
        v["reason"] = W((g.n(0, 40) << 56) | (g.r.getrandbits(32) << 24) | 0) if g.p(0.8) else g.w()
        v["pcid"] = "none" if g.p(0.5) else g.b32()
    if "len" in v and g.p(0.5):
        del v["len"]
    if t == "messageOut" and g.p(0.5):
        for f in ("mid", "nonce", "len", "digest"):
            v.pop(f, None)
        v["txid"], v["idx"] = g.b32(), g.w()
    return v


def enc_receipt(v):
    b = W(RK.index(v["t"]))
    if v["t"] == "scriptResult":
        return b + W(0) + v["gasUsed"] + "00" * 48
    for f in RF[v["t"]].split():
        f, k = f.split(":")
        if f == "data":
            d = v.get("data", "")
            b += W(len(d) // 2) + padhex(d)
        else:
            b += v.get(f) or (Z32 if k == "b" else W(0))
    return b + ("00" * 48 if v["t"] == "messageOut" else "")


# ------------------------------------------------------------------------- other
def fee_cases(g, n):
    for _ in range(n):
        f = g.pick([1, 1, 2, 3, 7, 10**9, 2**32, 2**63, 2**64 - 1, max(1, g.word())])
        p = dict(DEFAULTS, gasPriceFactor=f, gasPerByte=g.pick([0, 1, 4, 2**32, g.word()]))
        b, l, pr = [g.pick([g.word(), g.n(0, 10**4), g.n(0, 20)]) for _ in range(3)]
        if g.lits and g.p(0.3):
            f, b, l, pr = max(1, g.lit(2**64 - 1, 1)), g.n(0, 10**4), g.n(0, 10**6), g.word()
            p.update(gasPriceFactor=f, gasPerByte=g.pick([0, 1, g.word()]))
        k = g.n(0, 4)
        if k == 0 and pr:
            # a product around 2**64
            l = max(0, min(2**64 - 1, (2**64 + g.n(-3, 3)) // pr + g.n(-1, 1) - min(p["gasPerByte"] * b, 2**64)))
        elif k == 1:
            # sums around 2**64
            l = max(0, min(2**64 - 1, 2**64 - p["gasPerByte"] * b + g.n(-2, 2)))
            pr = g.pick([0, 1, 2])
        elif k == 2:
            # exact multiples of the factor and neighbours
            pr = 1
            p["gasPerByte"] = 1
            b = min(2**64 - 1, f * g.n(0, 3) + g.pick([0, 1, f - 1]))
            l = min(2**64 - 1, f * g.n(0, 3) + g.pick([0, 1, f - 1]))
        c = {"op": "fee", "params": g.params(p), "bytes": W(b), "limit": W(l), "price": W(pr), "balance": g.w()}
        if g.p(0.3):
            tot = -(-((p["gasPerByte"] * b + l) * pr) // f)
            c["balance"] = W(max(0, min(2**64 - 1, tot + g.pick([-1, 0, 1]))))
        if g.p(0.4):
            c["tx"] = g.anytx(kind=g.pick(["script", "create"]))
            if g.p(0.7):
                c["tx"]["limit"], c["tx"]["price"] = g.smallw(), g.smallw(1000)
        yield c


def metered_cases(g, n):
    for _ in range(n):
        yield {"op": "offsets", "tx": g.anytx(kind=g.pick(["script", "create"]))}


def contract_cases(g, n):
    for _ in range(n):
        code = g.hex(g.pick([0, 1, 3, 4, 7, 8, 9, 16, 17, 24, 40, 56, 63, 64, 65, 72, 100, g.n(0, 300)]) if g.p(0.98) else g.pick([1016, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097]))
        x = g.lit(5000)
        if x is not None and (x < 300 or g.p(0.5)):
            code = g.hex(x)
        slots = g.slots(g.lit(100, 0.1))
        if slots and g.p(0.5):
            g.r.shuffle(slots)
        c = {"op": "contract", "code": code, "slots": slots, "salt": g.b32()}
        if g.p(0.6):
            t = g.anytx(kind="create")
            if t["wits"] and g.p(0.7):
                t["bwi"] = g.n(0, len(t["wits"]))
            if g.p(0.5):
                t["wits"].insert(0, g.hex(g.n(0, 30)))
                t["bwi"] = g.pick([0, t["bwi"], len(t["wits"]), len(t["wits"]) - 1])
            # the declared length has no say in which bytes the contract has
            c["tx"] = t
        elif g.p(0.2):
            c["tx"] = g.anytx(kind=g.pick(["script", "mint"]))
        yield c


def big_contract(g, n):
    for _ in range(n):
        yield {"op": "contract", "code": g.hex(g.n(500, 3000)), "slots": g.slots(g.n(10, 40)), "salt": g.b32()}


def vast_contract(g):
    """code longer than 15, or 16, bits count"""
    for n in (g.n(32769, 34000), g.n(65537, 67000)):
        yield {"op": "contract", "code": g.hex(n), "slots": g.slots(2), "salt": g.b32()}


def derive_cases(g, n):
    for size in (4096, 4097, g.n(4098, 9000), 65536, g.n(65537, 70000)):
        yield {"op": "derive", "sender": g.b32(), "recipient": g.b32(), "nonce": g.w(), "amount": g.w(), "data": g.hex(size), "txid": g.b32(),
               "nonce32": g.b32(), "pred": g.hex(g.pick([8, size])), "owner": g.b32(), "key": g.n(0, 5), "idx": W(g.n(0, 255))}
    for _ in range(n):
        pred = g.nblob(100) if g.p(0.98) else g.hex(g.pick([1016, 1023, 1024, 1025, 4095, 4096, 4097]))
        yield {"op": "derive", "sender": g.b32(), "recipient": g.b32(), "nonce": g.w(), "amount": g.w(), "data": g.blob(), "txid": g.b32(),
               "nonce32": g.b32(), "pred": pred, "owner": g.b32() if g.p(0.3) else {"pred": pred, "near": 8 * g.pick([0, 30, 31, g.n(0, 31)]) + g.n(0, 7)} if g.p(0.4) else {"pred": g.pick([pred, pred + "00", pred + "00" * 8, pred[:-2]])},
               "key": g.n(0, 5), "idx": W(g.pick([0, 1, 255, 256, 257, 2**32, g.word()]))}


def with_owners(c):
    return c


def view_cases(g, n):
    for _ in range(n):
        t, p, h = g.valid(g.pick(["script", "create"]), nin=g.pick([0, 1, 3, 5, 8]))
        for f in (mut_dup, mut_auth):
            if g.p(0.5):
                f(g, t, p, h)
        if g.p(0.4):
            g.r.shuffle(t["inputs"])
        yield {"op": "views", "tx": t}


def access_cases(g, n):
    yield {"op": "reprs"}
    for _ in range(n):
        k = g.n(0, 9)
        if k < 5:
            yield {"op": "access", "ty": "input", "v": g.input(raw=True)}
        elif k < 9:
            yield {"op": "access", "ty": "output", "v": g.output()}
        elif g.p(0.3):
            yield {"op": "access", "ty": "witness", "v": g.wit()}
        elif g.p(0.25):
            yield {"op": "access", "ty": "slot", "v": g.slots(1)[0]}
        else:
            yield {"op": "access", "ty": "tx", "v": g.anytx(hi=2)}
    for _ in range(n // 6):
        yield {"op": "access", "ty": "tx", "v": dict(g.anytx(hi=1))}


def distinct_access(g):
    """every kind with pairwise different fields"""
    for t in INKINDS:
        yield {"op": "access", "ty": "input", "v": fill(g, g.input(t, raw=True))}
    for t in OUTKINDS:
        yield {"op": "access", "ty": "output", "v": fill(g, g.output(t))}


def fill(g, v):
    for f in v:
        if isinstance(v[f], str) and f != "t":
            n = len(v[f]) // 2
            v[f] = g.hex(n if f not in BLOBF else g.n(1, 30))
    return v


def hexcase(g, s):
    return "".join(c.upper() if g.p(0.5) else c for c in s)


def text_cases(g, n):
    for _ in range(n):
        k = g.n(0, 9)
        body = g.hex(33) if g.p(0.6) else g.hex(6)
        if g.p(0.4):
            body = hexcase(g, body)
        x = g.lit(70)
        if x is not None:
            body = g.hex(x)[:x]
        s = body
        if k == 0:
            s = "0x" + body
        elif k == 1:
            x = g.n(0, len(body) - 1)
            s = body[:x] + g.pick(["g", " ", "+", "-", "x", "é", "字", "😀", "0x", "\u0130", "ß", "٣", "．", "_"]) + body[x + 1:]
        elif k == 2:
            s = body[:g.n(0, len(body))]
        elif k == 3:
            s = body + g.hex(g.n(1, 3))
        elif k == 4:
            s = g.pick(["", "0x", "0", "00", "ff", "100", "+f", "+", "0x0x", "0x0x" + body, "0X" + body, "x", "é", "0é", " 0", "1é", "00é", "0x+1", "-1",
                        "0" * 65, "0" * 66, "0" * 67, "0" * 68, "f" * 66, "+" + "0" * 65, "0" * 64 + "+1", "0" * 64 + "-1", "+0000000" + "0000", "00000000+000",
                        "00000000" + "+fff", "é" * 33, "é" * 6, "字" * 4, "字" * 22])
        elif k == 5:
            chars = [g.pick(list("0123456789abcdefABCDEF") + ["é", "字", "+", "x"]) for _ in range(g.pick([1, 2, 3, 4, 6, 11, 12, 13, 22, 33, 64, 65, 66, 67]))]
            s = "".join(chars)
        elif k == 6:
            # aim the byte length at the fixed shapes with multi-byte characters inside
            want = g.pick([2, 12, 66, 64, 65])
            s = ""
            while len(s.encode()) < want:
                left = want - len(s.encode())
                s += g.pick(["0", "a", "F", "9"] + (["é"] if left > 1 else []) + (["字"] if left > 2 else []))
        yield {"op": "text", "utf8": s.encode().hex()}


def format_cases(g, n):
    for _ in range(n):
        yield {"op": "format", "utxo": g.utxo(), "ptr": g.ptr()}


def json_cases(g, n):
    for _ in range(n):
        yield {"op": "json", "tx": g.anytx(hi=3)}


def param_cases(g, n):
    for k in range(n):
        c = {"op": "params", "steps": [{"f": g.pick(PARAMS), "x": W(g.n(0, 300)) if g.p(0.3) else g.w()} for _ in range(g.pick([0, 1, 2, 5, 12]))]}
        if g.p(0.5):
            c["init"] = {f: W(g.n(0, 300)) if g.p(0.3) else g.w() for f in PARAMS}
        yield c
    for f in PARAMS:
        yield {"op": "params", "steps": [{"f": f, "x": g.w()}]}
    order = list(PARAMS)
    g.r.shuffle(order)
    yield {"op": "params", "steps": [{"f": f, "x": W(1000 + i)} for i, f in enumerate(order)]}


# ------------------------------------------------------------------------- histories
def life_cases(g, n, mint=0.1, focus=None):
    for _ in range(n):
        if g.p(mint):
            t, p, h = g.valid("mint")
            if g.p(0.3):
                mut_mint(g, t, p, h)
        else:
            t, p, h = g.valid(g.pick(["script", "create"]), nin=g.pick([1, 2, 3, 4, 4, 6, 9]))
            if g.p(0.35):
                MUTS[g.pick(["C01", "C02", "C04", "C05", "C07"])](g, t, p, h)
            if g.p(0.5):
                spice(g, t, money=focus == "C08" or g.p(0.3))
            if g.p(0.2):
                sameness(g, t)
            if g.p(0.06):
                t["inputs"] = []
                if g.p(0.7):
                    t["outputs"] = []
                if g.p(0.5) and t["wits"]:
                    t["wits"] += [t["wits"][-1]] * g.n(1, 2)
            if focus == "C08" or g.p(0.3):
                # unsigned so far
                t["wits"] = [w if isinstance(w, str) else "" for w in t["wits"]]
                if g.p(0.4):
                    t["wits"] = [g.hex(g.pick([0, 1, 63, 64, 65, 72, 128, 200])) if not w and g.p(0.6) else w for w in t["wits"]]
                if g.p(0.3):
                    for i in t["inputs"]:
                        if i["t"] in SIGNED and g.p(0.4):
                            i["wix"] = g.pick([g.n(0, len(t["wits"])), 0, len(t["wits"]), max(0, len(t["wits"]) - 1), 255])
                            if g.p(0.5):
                                i["owner" if i["t"] in COIN else "recipient"] = {"key": g.n(0, 1)}
        steps = []
        chk = lambda s: dict(s=s, height=W(h), params=g.params(p))
        for _ in range(g.pick([2, 4, 6, 9, 12])):
            k = g.r.random()
            if focus == "C08" and k < 0.5 and t["k"] != "mint":
                steps.append({"s": "sign", "key": W(g.n(0, 4))})
            elif k < 0.3:
                steps.append(set_step(g, t))
            elif k < 0.4:
                steps.append({"s": "precompute"})
            elif k < 0.48 and t["k"] != "mint":
                steps.append({"s": "sign", "key": W(g.n(0, 4))})
            elif k < 0.56 and t["k"] != "mint":
                steps.append({"s": g.pick(["prepScript", "prepPred"])})
            elif k < 0.7:
                steps.append({"s": g.pick(["clone", "reencode", "json", "offs"])})
            elif k < 0.78:
                steps.append(chk(g.pick(["checkWs", "check"])) if g.p(0.7) else {"s": "checkSig"})
            elif k < 0.86:
                steps.append(dict(chk(g.pick(["into", "intoBasic"])), form=g.pick(["enum", "variant"])))
            else:
                steps.append({"s": g.pick(["checkSigs", "toChecked", "toEnum", "toVariant", "clone", "inner", "asRef", "offs"])})
        if g.p(0.6):
            # finish through the checked forms
            if t["k"] != "mint" and g.p(0.7):
                steps += [{"s": "sign", "key": W(k)} for k in g.r.sample(range(4), 4)]
            steps.append(dict(chk(g.pick(["into", "intoBasic"])), form=g.pick(["enum", "variant"])))
            for _ in range(g.n(1, 6)):
                steps.append({"s": g.pick(["checkSigs", "toChecked", "toEnum", "toVariant", "clone", "asRef", "offs"])})
            if g.p(0.5):
                steps.append({"s": "inner"})
                steps.append({"s": g.pick(["offs", "clone", "reencode"])})
                if g.p(0.5):
                    steps.append(set_step(g, t))
                    steps.append(dict(chk("into"), form="enum"))
        yield {"op": "life", "tx": t, "steps": steps}


def set_step(g, t):
    if t["k"] == "mint":
        f = g.pick(["ptr", "outputs"])
        return {"s": "set", "f": f, "v": g.ptr() if f == "ptr" else [dict(g.output("coin"), asset=a) for a in g.r.sample(g.assets, 2)]}
    fs = ["price", "limit", "maturity", "inputs", "outputs", "wits"] + (["script", "data", "rroot"] if t["k"] == "script" else ["bcl", "bwi", "salt", "slots"])
    f = g.pick(fs)
    if f in ("price", "limit", "maturity", "bcl"):
        v = g.smallw(100)
    elif f in ("script", "data"):
        v = g.blob()
    elif f in ("rroot", "salt"):
        v = g.b32()
    elif f == "bwi":
        v = g.n(0, 2)
    elif f == "slots":
        v = g.slots()
    elif f == "wits":
        v = [g.wit() for _ in range(g.n(0, 5))]
    elif f == "outputs":
        v = [g.output(g.pick(["message", "variable"]) if t["k"] == "script" else "created")]
    else:
        v = [g.input("coinPredicate") for _ in range(g.n(0, 2))]
        for i in v:
            i["pred"], i["asset"] = "24", Z32
            i["owner"] = {"pred": "24"}
            i["utxo"] = {"id": g.hex(32), "ix": 0}
            i["amount"] = g.smallw()
    return {"s": "set", "f": f, "v": v}


def build_cases(g, n):
    for _ in range(n):
        kind = g.pick(["script", "script", "create", "mint"])
        c = {"op": "build", "kind": kind, "height": W(g.pick([0, 1, 100])), "params": g.params(DEFAULTS)}
        steps = []
        if kind == "script":
            c.update(script=g.blob(), data=g.blob())
        elif kind == "create":
            c.update(bytecode=g.hex(g.n(0, 5) * 4 + g.pick([0, 0, 0, 1, 2, 3])), salt=g.b32(), slots=g.slots())
        else:
            c.update(h=W(g.n(0, 200)), i=W(g.n(0, 65535)))
            if g.p(0.5):
                c["height"] = c["h"]
        c["fin"] = g.pick(["sign", "signTx", "bare", "bareTx", "checked", "basic"])
        nice = c["fin"] in ("checked", "basic") and g.p(0.8)
        if kind == "mint":
            for a in g.r.sample(g.assets, g.n(0, 3)):
                steps.append({"s": "output", "v": dict(g.output("coin"), asset=a) if nice or g.p(0.7) else g.output()})
            if g.p(0.2):
                steps.insert(g.n(0, len(steps)), {"s": "finish", "v": g.p(0.5)})
            c["steps"] = steps
            yield c
            continue
        nin = 0
        for _ in range(g.n(0, 10)):
            k = g.n(0, 11)
            if k == 0:
                steps.append({"s": "price", "v": W(g.n(0, 3)) if nice else g.w()})
            elif k == 1:
                steps.append({"s": "limit", "v": g.smallw(1000) if nice else g.w()})
            elif k == 2:
                steps.append({"s": "maturity", "v": W(0) if nice else g.w()})
            elif k == 3:
                i = g.input("coinPredicate" if nice or kind == "create" and g.p(0.5) else None, raw=not nice)
                if nice:
                    i["utxo"] = {"id": g.hex(32), "ix": 1}
                    i["amount"] = g.smallw()
                    i["pred"] = "24"
                    i["owner"] = {"pred": "24"}
                steps.append({"s": "input", "v": i})
                nin += 1
            elif k in (4, 5):
                o = g.output(g.pick(["variable", "message"]) if kind == "script" else "created") if nice else g.output()
                steps.append({"s": "output", "v": o})
            elif k == 6:
                steps.append({"s": "witness", "v": g.wit()})
            elif k in (7, 8):
                steps.append({"s": "coin", "key": W(g.n(0, 3)), "utxo": {"id": g.hex(32), "ix": g.u8()} if nice else g.utxo(), "amount": g.smallw() if nice else g.w(),
                              "asset": g.asset(), "ptr": g.ptr(), "maturity": g.w()})
                nin += 1
            elif k == 9:
                steps.append({"s": "message", "key": W(g.n(0, 3)), "sender": g.b32(), "nonce": g.w(), "amount": g.smallw() if nice else g.w(), "data": g.blob()})
                nin += 1
            elif k == 10:
                steps.append({"s": g.pick(["prepScript", "prepPred"]), "v": g.p(0.5)})
            elif k == 11 and not nice:
                steps.append({"s": "prepPred", "v": True})
        if g.p(0.25) and not nice:
            steps.insert(g.n(0, len(steps)), {"s": "finish", "v": g.p(0.5)})
        c["steps"] = steps
        yield c


def twin_cases(g, n):
    for c in tx_cases(g, n, "any", "ws"):
        yield dict(c, op="twin")
    for _ in range(n // 10):
        t, p, h = g.valid("mint")
        mut_mint(g, t, p, h)
        yield dict(g.check(t, p, h), op="twin")


# ------------------------------------------------------------------------- long lists


def broad(g, kind, n, ts, assets=False, keys=4, shared=False):
    """a valid transaction of n small inputs of the given kinds (each asset its own, if asked)"""
    t, p, h = g.valid(kind, nin=0)
    if kind == "script":
        t.update(script="24", data="", outputs=[], wits=[])
    else:
        t.update(outputs=[], wits=["24000000"], bcl=W(1), bwi=0, slots=[])
    ins = t["inputs"] = []
    for k in range(n):
        i = g.input(ts[k % len(ts)])
        x = format(k + 1, "04x") + g.hex(30)
        if i["t"] in COIN:
            i.update(utxo={"id": x, "ix": g.u8()}, amount=W(g.n(1, 99)), asset=x if assets and k else Z32)
        elif i["t"] in MSG:
            i.update(mid=x, amount=W(g.n(1, 99)), data=g.hex(g.n(0, 3)))
        else:
            i["cid"] = x
            t["outputs"].append({"t": "contract", "inix": k, "broot": g.b32(), "sroot": g.b32()})
        own = "owner" if i["t"] in COIN else "recipient"
        if i["t"] in SIGNED:
            y = 0 if shared else k % keys
            i[own] = {"key": y}
            if shared and len(t["wits"]) > (kind != "script"):
                i["wix"] = len(t["wits"]) - 1
            else:
                i["wix"] = len(t["wits"])
                t["wits"].append({"sig": y})
        elif i["t"] in PRED:
            i.update(pred=format(k % 7 + 1, "02x"), pdata=g.hex(g.n(0, 2)))
            i[own] = {"pred": i["pred"]}
        ins.append(i)
    t["maturity"], t["price"] = W(0), W(0)
    return t, dict(DEFAULTS), h


def last(g, n):
    """a place late in a list of n"""
    return g.pick([n - 1, n - 1, n - 1, n - 2, n // 2])


def far_cases(g, prop, op=None):
    """violations (or none) late in long lists"""
    out = []
    what = {"C01": "ws", "C02": "ws", "C03": "ws", "C04": "ws", "C14": "ws,into", "C05": "ws,basic", "C07": "ws,sig,full,into"}.get(prop, "all")

    def put(t, p, h):
        out.append(dict(g.check(t, p, h, what), **({"op": op} if op else {})))
    for n in g.many:
        if prop == "C01":
            for f in ("pred", "pdata", "data"):
                t, p, h = broad(g, "script", n, ["messagePredicate"] if f == "data" else ["coinPredicate", "messagePredicate"])
                i = t["inputs"][last(g, n)]
                i[f] = g.hex(9)
                i["owner" if i["t"] in COIN else "recipient"] = {"pred": i["pred"]}
                q = {"pred": "maxPredicateLength", "pdata": "maxPredicateDataLength", "data": "maxMessageDataLength"}[f]
                put(t, dict(p, **{q: g.pick([8, 8, 9])}), h)
            t, p, h = broad(g, "create", n - 1, ["coinSigned", "messageSigned"])
            t["inputs"][last(g, n - 1)]["wix"] = g.pick([n, n - 1, 255])
            put(t, p, h)
        elif prop == "C02":
            for ts, f in ((["coinSigned", "coinPredicate"], "utxo"), (["messageSigned", "messagePredicate"], "mid"), (["contract"], "cid")):
                t, p, h = broad(g, "script", n, ts)
                a, b = g.pick([(0, n - 1), (n - 2, n - 1), (0, last(g, n)), (n // 3, n - 1)])
                t["inputs"][b][f] = t["inputs"][a][f]
                put(t, p, h)
        elif prop == "C03":
            t, p, h = broad(g, "script", n, ["contract", "coinPredicate"])
            k = g.n(0, 3)
            if k == 0:
                t["outputs"][-1]["inix"] = g.pick([0, n - 1, n, 255])
            elif k == 1:
                t["outputs"].pop()
            elif k == 2:
                t["outputs"].append(dict(t["outputs"][0]))
            put(t, p, h)
            if n == MANY[-1] and not g.lits:
                for at in (256, 257, 300):
                    t, p, h = broad(g, "script", 310, ["coinPredicate"])
                    t["inputs"][at] = g.input("contract")
                    if at != 300:
                        t["inputs"][at % 256] = g.input("contract")
                    t["outputs"] = [{"t": "contract", "inix": at % 256, "broot": Z32, "sroot": Z32}]
                    put(t, dict(p, maxInputs=400), h)
        elif prop == "C04":
            for kind, ts in (("script", ["coinPredicate", "coinSigned"]), ("script", ["coinPredicate", "contract", "messagePredicate"]), ("create", ["coinPredicate"])):
                t, p, h = broad(g, kind, n, ts, assets=True)
                have = [i["asset"] for i in t["inputs"] if i["t"] in COIN]
                t["outputs"] += [{"t": "change", "to": g.b32(), "amount": W(0), "asset": a} for a in have[:254 - len(t["outputs"])]]
                k = g.n(0, 3)
                t["outputs"] = t["outputs"][:253] + [[], [{"t": "change", "to": g.b32(), "amount": W(0), "asset": g.pick([t["outputs"][-1]["asset"], have[-1], have[0]])}],
                                                     [{"t": g.pick(["coin", "change"]), "to": g.b32(), "amount": W(0), "asset": g.hex(32)}],
                                                     [{"t": "coin", "to": g.b32(), "amount": W(0), "asset": have[-1]}]][k]
                put(t, p, h)
        elif prop == "C14":
            okout = lambda: g.pick([{"t": "message", "recipient": g.b32(), "amount": W(0)}, {"t": "coin", "to": g.b32(), "amount": W(0), "asset": Z32}])
            for bad in ("contract", "variable", "created", "change", None):
                t, p, h = broad(g, "create", 2, ["coinPredicate", "messagePredicate"], assets=True)
                t["inputs"][1] = dict(g.input("coinPredicate"), asset=g.assets[1], pred="01", owner={"pred": "01"}, amount=W(5))
                t["outputs"] = [okout() for _ in range(n)]
                t["outputs"][g.pick([0, n // 2])] = g.output("created")
                if bad:
                    t["outputs"][last(g, n) if n > 2 else 1] = dict(g.output(bad), **({"asset": g.assets[1]} if bad == "change" else {}))
                put(t, p, h)
            for bad in (True, False):
                t, p, h = broad(g, "create", n, ["coinPredicate", "messagePredicate"])
                if bad:
                    t["inputs"][last(g, n)] = g.input("contract")
                put(t, p, h)
                t, p, h = broad(g, "script", 1, ["coinPredicate"])
                t["outputs"] = [g.pick([okout(), g.output("variable")]) for _ in range(n)]
                if bad:
                    t["outputs"][last(g, n)] = g.output("created")
                put(t, p, h)
        elif prop == "C05":
            for kind, ts in (("script", ["coinPredicate", "messagePredicate", "contract"]), ("create", ["messagePredicate", "coinPredicate"]), ("script", ["coinPredicate"])):
                t, p, h = broad(g, kind, min(n, 120), ts, assets=g.p(0.7))
                p.update(gasPriceFactor=1, gasPerByte=0)
                t["limit"], t["price"] = W(0), W(0)
                own = {}
                for i in t["inputs"]:
                    if i["t"] != "contract":
                        a = i["asset"] if i["t"] in COIN else Z32
                        own[a] = own.get(a, 0) + int(i["amount"], 16)
                t["outputs"] += [{"t": "coin", "to": g.b32(), "amount": W(x), "asset": a} for a, x in own.items()]
                o = t["outputs"][-1]
                if o["t"] == "coin":
                    o["amount"] = W(int(o["amount"], 16) + g.pick([-1, 0, 1]))
                put(t, p, h)
        elif prop == "C07":
            for k in range(5):
                kind = g.pick(["script", "create"])
                m = n if kind == "script" or k == 1 else n - 1
                t, p, h = broad(g, kind, m, ["coinPredicate", "messagePredicate"] if k == 1 else g.pick([["coinSigned"], ["messageSigned", "coinSigned"], ["coinSigned", "messagePredicate"]]),
                                keys=g.pick([1, 2, 200]), shared=k == 2)
                i = t["inputs"][last(g, m)]
                own = "owner" if i["t"] in COIN else "recipient"
                if k == 1:
                    i[own] = {"pred": g.pick(["2424", g.hex(2)])}
                elif k == 2:
                    i[own] = {"key": 1}
                elif k == 3 and i["t"] in SIGNED:
                    t["wits"][i["wix"]] = dict(t["wits"][i["wix"]], **g.pick([{"sig": 777}, {"msg": g.b32()}, {"cut": 64}, {"ext": 1}, {"flip": 511}]))
                elif k == 4:
                    i.update({"wix": len(t["wits"])} if i["t"] in SIGNED else {"pred": ""})
                put(t, p, h)
    return out


def far_lives(g):
    for n in g.many:
        for k in range(2):
            t, p, h = broad(g, g.pick(["script", "create"]), n - 1, g.pick([["coinSigned", "messageSigned"], ["coinSigned"], ["messageSigned", "coinPredicate", "coinSigned"]]), keys=2)
            t["wits"] = [w if isinstance(w, str) else "" for w in t["wits"]]
            steps = [{"s": "sign", "key": W(k)}, {"s": "sign", "key": W(1 - k)}, {"s": "checkSig"}]
            yield {"op": "life", "tx": t, "steps": steps}


def again_lives(g):
    """precompute, change one field, and precompute again, be inputs, outputs and witnesses there or not"""
    for kind in ("script", "create"):
        fs = ["price", "limit", "maturity", "inputs", "outputs", "wits"] + (["script", "data", "rroot"] if kind == "script" else ["bcl", "bwi", "salt", "slots"])
        for gone in product((False, True), repeat=3):
            for f in fs:
                t, p, h = g.valid(kind, nin=2)
                for x, l in zip(gone, ("inputs", "outputs", "wits")):
                    if x:
                        t[l] = []
                for _ in range(40):
                    st = set_step(g, t)
                    if st["f"] == f:
                        break
                else:
                    continue
                steps = [{"s": "precompute"}, st, {"s": g.pick(["precompute", "precompute", "reencode", "clone"])}, {"s": "offs"}]
                if not gone[2] and gone[0] and g.p(0.7):
                    t["wits"] = [w if isinstance(w, str) else "" for w in t["wits"]]
                    t["wits"] += t["wits"][-1:]
                    steps.append({"s": "sign", "key": W(0)})
                yield {"op": "life", "tx": t, "steps": steps}


def sign_lives(g):
    """signing a transaction in which nothing names the key, or nothing is to be signed"""
    for kind in ("script", "create"):
        for n in (0, 1, 2, 3):
            for what in ("none", "contract", "pred", "other"):
                t, p, h = g.valid(kind, nin=2)
                t["inputs"] = [] if what == "none" else [g.input("contract")] if what == "contract" else [g.input("coinPredicate")] if what == "pred" else [dict(g.input("coinSigned"), owner={"key": 3}, wix=max(0, n - 1))]
                t["wits"] = [g.pick(["", "ab", "ab", g.hex(64)]) for _ in range(n)]
                if n > 1 and g.p(0.6):
                    t["wits"][1] = t["wits"][0]
                yield {"op": "life", "tx": t, "steps": [{"s": "sign", "key": W(g.n(0, 2))}, {"s": "sign", "key": W(4)}]}


def far_views(g):
    for n in g.many:
        t, p, h = broad(g, "script", n, ["contract"])
        for i in g.r.sample(t["inputs"], n // 3):
            t["inputs"].insert(g.n(0, len(t["inputs"])), dict(i, utxo=g.utxo()))
        yield {"op": "views", "tx": t}
        t, p, h = broad(g, g.pick(["script", "create"]), n, ["coinPredicate", "messagePredicate", "coinSigned"], assets=True)
        for i in g.r.sample(t["inputs"], n // 3):
            t["inputs"].insert(g.n(0, len(t["inputs"])), dict(i))
        if g.p(0.7):
            i = [i for i in t["inputs"] if i["t"] in PRED][-1]
            i["owner" if i["t"] in COIN else "recipient"] = {"pred": "2424"}
        yield {"op": "views", "tx": t}


def far_builds(g):
    for n in g.many:
        for kind in ("script", "create"):
            c = {"op": "build", "kind": kind, "height": W(0), "params": g.params(DEFAULTS), "fin": g.pick(["sign", "signTx", "bare", "checked", "basic"])}
            c.update(dict(script="24", data="") if kind == "script" else dict(bytecode="24000000", salt=g.b32(), slots=[]))
            c["steps"] = [{"s": "limit", "v": W(5)}]
            for k in range(n - 1):
                x = format(k + 1, "04x") + g.hex(30)
                c["steps"].append(g.pick([
                    {"s": "coin", "key": W(k + 1), "utxo": {"id": x, "ix": 0}, "amount": W(5), "asset": Z32, "ptr": g.ptr(), "maturity": W(0)},
                    {"s": "message", "key": W(k + 1), "sender": x, "nonce": W(k), "amount": W(5), "data": ""}]))
            yield c


def far_pairs(g):
    """pairs of long transactions that differ late"""
    for n in g.many:
        for kind in ("script", "create"):
            t, p, h = broad(g, kind, n - 1, [k for k in INKINDS if kind == "script" or k != "contract"], assets=True)
            t["wits"] = [w if isinstance(w, str) else g.hex(3) for w in t["wits"]] + [g.hex(2) for _ in range(n)]
            t["outputs"] = (t["outputs"] + [g.output() for _ in range(n)])[:254]
            if kind == "create":
                t["slots"] = g.slots(n)
            for ls in ("inputs", "outputs", "wits", "slots"):
                if ls in t:
                    u = dict(t, **{ls: list(t[ls])})
                    x = u[ls][-1]
                    if isinstance(x, str):
                        u[ls][-1] = x + "00"
                    else:
                        u[ls][-1] = nudge(g, x)
                    yield t, u


def mint_cases(g, n, what="ws,full,basic,into"):
    for _ in range(n):
        t, p, h = g.valid("mint")
        mut_mint(g, t, p, h)
        yield g.check(t, p, h, what)


def cases(prop, seed, scale=1.0):
    """The random cases of one check: without, and then with, a dictionary of the code's own numbers."""
    out = some_cases(G(f"{prop}:{seed}"), prop, scale)
    lits = literals()
    return out + (some_cases(G(f"{prop}:{seed}:lits", lits), prop, 0.3 * scale) if lits else [])


def some_cases(g, prop, scale):
    N = lambda n: max(1, int(n * scale))
    out = []
    plain = not g.lits
    few = tuple(g.r.sample(g.lits, 4)) if len(g.lits) > 4 else tuple(g.lits)
    few = tuple(n for n in few if 9 < n <= 70000)
    add = out.extend
    if prop in ("C01", "C02", "C03", "C04", "C05", "C07", "C14"):
        for _ in range(1 if plain else 3):
            add(far_cases(g, prop))
    if prop == "C01":
        add(tx_cases(g, N(900), prop, "ws", plain=0.1))
        add(tx_cases(g, N(100), prop, "ws,var,full,basic,into"))
        add(big_cases(g) if plain else [])
        add(heights(g))
        add(words_limits(g))
        add(crowds(g, (256, 257) if plain else few, quick=not plain))
        add(crowds(g, (65537,) if plain else (), quick=True))
    elif prop in ("C02", "C03", "C04"):
        kinds = ("script",) if prop == "C03" else ("script", "script", "create")
        add(tx_cases(g, N(900), prop, "ws", kinds=kinds))
        add(tx_cases(g, N(100), prop, "ws,var,full,basic,into", kinds=kinds))
    elif prop == "C14":
        add(tx_cases(g, N(900), prop, "ws", kinds=("create", "create", "create", "create", "script")))
        add(tx_cases(g, N(100), prop, "ws,var,full,basic,into", kinds=("create",)))
        add(order_cases(g, N(60)))
    elif prop == "C13":
        add(mint_cases(g, N(600)))
        add(mint_cases(g, N(100), "all"))
    elif prop == "C05":
        for _ in range(N(4)):
            t, p, h = g.valid("script", nin=2)
            t.update(data=g.hex(g.pick([65536, 65537, 70000])), inputs=[i for i in t["inputs"] if i["t"] != "contract"], outputs=[])
            mut_ledger(g, t, p, h)
            add([g.check(t, p, h, "ws,basic")])
        add(ledger_corners(g))
        add(far_ledger(g) if plain else [])
        add(tx_cases(g, N(900), prop, "ws,basic", other=0.02))
        add(tx_cases(g, N(100), prop, "ws,basic,into", other=0.02))
    elif prop == "C06":
        add(fee_cases(g, N(900)))
        add(metered_cases(g, N(100)))
        add(bulk_cases(g, (257, 65537) if plain else few))
        add(tx_cases(g, N(200), "C05", "ws,basic", other=0))
    elif prop == "C07":
        add(tx_cases(g, N(350), prop, lambda g: g.pick(["sig", "sig,ws", "ws,sig,full,into", "all"]), plain=0.2, other=0.02))
        add(mint_cases(g, N(20), "all"))
        add(derive_cases(g, N(50)))
    elif prop == "C08":
        add(life_cases(g, N(160), mint=0, focus="C08"))
        add(far_lives(g))
        add(sign_lives(g))
    elif prop == "C09":
        add(malleable_pairs(g, N(700)))
        add({"op": "idpair", "a": a, "b": b} for a, b in (extreme_pairs(g) if plain else ()))
        add(idpairs(g, N(200), ["script", "create"]))
        add({"op": "prep", "tx": g.anytx(kind=g.pick(["script", "create"]))} for _ in range(N(100)))
    elif prop == "C10":
        add({"op": "ident", "tx": g.anytx()} for _ in range(N(300)))
        add(idpairs(g, N(800)))
        add({"op": "idpair", "a": a, "b": b} for a, b in far_pairs(g))
        add({"op": "idpair", "a": a, "b": b} for a, b in (extreme_pairs(g) if plain else ()))
        add(bulk_cases(g, (255, 256, 257, 65537) if plain else few))
    elif prop == "C11":
        add(life_cases(g, N(200)))
        add(again_lives(g))
        add({"op": "offsets", "tx": g.anytx()} for _ in range(N(150)))
        add({"op": "ident", "tx": g.anytx()} for _ in range(N(50)))
        add(json_cases(g, N(80)))
        add(c for c in serde_cases(g, N(80)) if c["ty"] == "tx")
        add({"op": "codec", "ty": "tx", "v": g.anytx(hi=3)} for _ in range(N(60)))
        add(tx_cases(g, N(80), "any", "all"))
    elif prop == "C12":
        add(life_cases(g, N(200), mint=0.15))
        add(tx_cases(g, N(200), "any", "all"))
        add(mint_cases(g, N(40), "all"))
        add([{"op": "defaults"}])
    elif prop == "C15":
        add(bulk_cases(g, (65537,) if plain else few))
        add(codec_cases(g, N(900)))
        add({"op": "codec", "ty": ty, "v": v} for ty, v in (extreme_values(g) if plain else ()))
        add({"op": "codec", "ty": "tx", "v": t} for t in (vast(g) if plain else ()))
    elif prop == "C16":
        add(hostile_cases(g, N(1200)))
        add(prefix_cases(g, N(6)))
        add(rhostile_cases(g, N(300)))
    elif prop == "C17":
        add({"op": "offsets", "tx": g.anytx(hi=5)} for _ in range(N(500)))
        add({"op": "offsets", "tx": t} for t in (vast(g) if plain else ()))
        add([{"op": "reprs"}])
        add(param_cases(g, N(50)))
        add(bulk_cases(g, (255, 256, 257, 65537) if plain else few))
    elif prop == "C18":
        add({"op": "receipt", "v": receipt(g, t)} for t in RK * N(60))
        add(derive_cases(g, N(40)))
    elif prop == "C19":
        add(contract_cases(g, N(250)))
        add(big_contract(g, N(3)) if plain else [])
        add(vast_contract(g) if plain else [])
    elif prop == "C20":
        add({"op": "prep", "tx": g.anytx(kind=g.pick(["script", "create"]), hi=6)} for _ in range(N(500)))
        add({"op": "prep", "tx": t} for t in (extreme_txs(g, mint=False) if plain else ()))
    elif prop == "C21":
        add(text_cases(g, N(900)))
        add(format_cases(g, N(150)))
        add(json_cases(g, N(100)))
        add(serde_cases(g, N(250)))
        add({"op": "serde", "ty": ty, "v": v} for ty, v in (extreme_values(g) if plain else ()))
    elif prop == "C22":
        add(derive_cases(g, N(400)))
    elif prop == "C23":
        add(build_cases(g, N(350)))
        add(far_builds(g))
    elif prop == "C24":
        add(param_cases(g, N(250)))
    elif prop == "C25":
        add(view_cases(g, N(400)))
        add(far_views(g))
    elif prop == "C26":
        add(tx_cases(g, N(300), "any", "all", plain=0.1, other=0.4))
        add(mint_cases(g, N(80), "all"))
        for q in ("C01", "C04", "C07", "C14"):
            add(tx_cases(g, N(25), q, "all", other=0.02))
        add({"op": "check", "what": "all", "height": g.w(), "params": {f: g.pick([g.w(), W(g.n(0, 5)), W(DEFAULTS[f])]) if f != "gasPriceFactor" else W(max(1, g.word())) for f in PARAMS},
             "tx": g.anytx(raw=g.p(0.5))} for _ in range(N(250)))
    elif prop == "C27":
        add(twin_cases(g, N(900)))
        for q in ("C02", "C04"):
            add(far_cases(g, q, "twin"))
    elif prop == "C29":
        add(relate_cases(g, N(900)))
        add({"op": "relate", "ty": "tx", "a": a, "b": b} for a, b in far_pairs(g))
        add({"op": "relate", "ty": "tx", "a": a, "b": b} for a, b in (extreme_pairs(g) if plain else ()))
    elif prop == "C28":
        add(access_cases(g, N(500)))
        add({"op": "access", "ty": ty, "v": v} for ty, v in (extreme_values(g) if plain else ()) if ty in ("tx", "input", "output", "slot"))
        for _ in range(N(10)):
            add(distinct_access(g))
    return out


def bulk_cases(g, ns, prop=""):
    """transactions with very many equal items in one of their lists"""
    for n in ns:
        for kind in ("script", "create", "mint"):
            for ls in {"script": ("inputs", "outputs", "wits"), "create": ("slots", "inputs", "outputs", "wits"), "mint": ("outputs",)}[kind]:
                t = g.anytx(kind=kind, hi=2, raw=False)
                t[ls] = []
                while True:
                    item = {"slots": lambda: g.slots(1)[0], "inputs": lambda: g.input(raw=False), "outputs": g.output, "wits": lambda: g.hex(g.n(0, 9))}[ls]()
                    if n < 1000 or size_of(item) < 100:
                        break
                yield {"op": "bulk", "tx": t, "list": ls, "item": item, "n": n}


def size_of(v):
    return sum(len(x) // 2 for f, x in v.items() if f in BLOBF and isinstance(x, str)) if isinstance(v, dict) else len(v) // 2


def crowds(g, ns, quick=False):
    """the same against limits near, and narrowed forms of, the number of items"""
    for n in ns:
        for ls, p, kinds in (("wits", "maxWitnesses", ("script", "create")), ("outputs", "maxOutputs", ("script", "create")), ("slots", "maxStorageSlots", ("create",))):
            for m in sorted({n - 1, n} if quick else {n - 1, n, n + 1, n % 256, n % 65536, 255, 2**32, 2**64 - 1}):
                t, q, h = g.valid(g.pick(kinds), nin=g.n(1, 2))
                q = dict(g.bigparams(), **{p: m})
                t["maturity"] = W(0)
                item = {"slots": {"k": g.b32(), "v": g.b32()}, "wits": g.hex(g.n(0, 3)), "outputs": {"t": "message", "recipient": g.b32(), "amount": g.w()}}[ls]
                t[ls] = []
                yield {"op": "bulk", "tx": t, "list": ls, "item": item, "n": n, "params": g.params(q)}


def order_cases(g, n):
    for _ in range(n):
        ss = g.slots(g.n(0, 9))
        if ss and g.p(0.6):
            for _ in range(g.n(1, 3)):
                ss.append(dict(g.pick(ss), v=g.b32()))
        if ss and g.p(0.3):
            # keys that differ in one byte only
            k = g.pick(ss)["k"]
            for _ in range(3):
                x = 2 * g.n(0, 31)
                ss.append({"k": k[:x] + g.hex(1) + k[x + 2:], "v": g.b32()})
        g.r.shuffle(ss)
        yield {"op": "order", "slots": ss}


def deep(prop, seed):
    """Large cases for the thorough tier."""
    g = G(f"deep:{prop}:{seed}")
    out = []
    if prop == "C19":
        for n in (32767, 32768, 65535, 65536, 65537, 100000):
            out.append({"op": "contract", "code": g.hex(n), "slots": g.slots(g.n(0, 3)), "salt": g.b32()})
        out.append({"op": "contract", "code": "00", "slots": g.slots(300), "salt": g.b32()})
    if prop == "C22":
        for c in derive_cases(g, 6):
            out.append(dict(c, pred=g.hex(g.pick([32768, 65535, 65536, 65537]))))
            out.append(dict(c, data=g.hex(g.pick([32768, 65535, 65536, 65537]))))
    if prop in ("C10", "C15", "C17", "C06"):
        out.extend(bulk_cases(g, (65535, 65536, 65537, 100000)))
    if prop == "C01":
        out.extend(crowds(g, (65535, 65536, 65537)))
    return out


if __name__ == "__main__":
    import json, sys
    for c in cases(sys.argv[1], int(sys.argv[2]), float(sys.argv[3]) if len(sys.argv) > 3 else 1.0):
        print(json.dumps(c))
