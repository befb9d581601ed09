import java.io.*;
import java.math.BigInteger;
import java.nio.charset.StandardCharsets;
import java.security.MessageDigest;
import java.util.*;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.IValue;
import tlc2.value.impl.*;
import util.UniqueString;

/** Java implementations of the operators marked (J) in Prim.tla (and of the hash and curve primitives). */
public class Prim {
    private static String s(Value v) { return ((StringValue) v).val.toString(); }
    private static Value str(String x) { return new StringValue(x); }
    private static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

    // ---- total equality and access ------------------------------------------------------------
    private static Value tuple(Value v) {
        if (v instanceof TupleValue) return v;
        Value t = v.toTuple();
        return t;
    }
    private static Value rec(Value v) {
        if (v instanceof RecordValue) return v;
        try { return v.toRcd(); } catch (RuntimeException e) { return null; }
    }
    private static boolean eq(Value a, Value c) {
        if (a instanceof StringValue || c instanceof StringValue)
            return a instanceof StringValue && c instanceof StringValue && ((StringValue) a).val.equals(((StringValue) c).val);
        if (a instanceof IntValue || c instanceof IntValue)
            return a instanceof IntValue && c instanceof IntValue && ((IntValue) a).val == ((IntValue) c).val;
        if (a instanceof BoolValue || c instanceof BoolValue)
            return a instanceof BoolValue && c instanceof BoolValue && ((BoolValue) a).val == ((BoolValue) c).val;
        Value x = tuple(a), y = tuple(c);
        if (x != null || y != null) {
            if (x == null || y == null) return false;
            TupleValue p = (TupleValue) x, q = (TupleValue) y;
            if (p.elems.length != q.elems.length) return false;
            for (int i = 0; i < p.elems.length; i++) if (!eq(p.elems[i], q.elems[i])) return false;
            return true;
        }
        Value r1 = rec(a), r2 = rec(c);
        if (r1 != null && r2 != null) {
            RecordValue p = (RecordValue) r1, q = (RecordValue) r2;
            if (p.names.length != q.names.length) return false;
            for (int i = 0; i < p.names.length; i++) {
                Value z = field(q, p.names[i]);
                if (z == null || !eq(p.values[i], z)) return false;
            }
            return true;
        }
        if (r1 != null || r2 != null) return false;
        return a.equals(c);
    }
    private static Value field(RecordValue r, UniqueString n) {
        for (int i = 0; i < r.names.length; i++) if (r.names[i].equals(n)) return r.values[i];
        return null;
    }
    private static RecordValue asRec(Value v) {
        if (v instanceof RecordValue) return (RecordValue) v;
        if (v instanceof StringValue || v instanceof IntValue || v instanceof BoolValue || v instanceof TupleValue) return null;
        Value r = rec(v);
        return r instanceof RecordValue ? (RecordValue) r : null;
    }
    public static Value Eq(final Value a, final Value c) { return b(eq(a, c)); }
    public static Value Has(final Value r, final StringValue k) {
        RecordValue q = asRec(r);
        return b(q != null && field(q, k.val) != null);
    }
    public static Value Get(final Value r, final StringValue k) {
        RecordValue q = asRec(r);
        Value x = q == null ? null : field(q, k.val);
        return x == null ? str("\\missing") : x;
    }

    // ---- strings ------------------------------------------------------------------------------
    public static Value Cat(final Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        StringBuilder sb = new StringBuilder();
        for (Value e : t.elems) sb.append(s(e));
        return str(sb.toString());
    }
    public static Value SumSeq(final Value v) {
        long n = 0;
        for (Value x : ((TupleValue) tuple(v)).elems) n += ((IntValue) x).val;
        return IntValue.gen(Math.toIntExact(n));
    }
    public static Value Rep(final StringValue v, final IntValue n) {
        return str(v.val.toString().repeat(n.val));
    }
    public static Value HexLt(final StringValue a, final StringValue c) {
        return b(a.val.toString().compareTo(c.val.toString()) < 0);
    }

    // ---- naturals -----------------------------------------------------------------------------
    private static BigInteger n(StringValue v) { return new BigInteger(v.val.toString(), 16); }
    private static String norm(BigInteger x) {
        String h = x.toString(16);
        return h.length() >= 16 ? h : "0".repeat(16 - h.length()) + h;
    }
    public static Value NAdd(final StringValue a, final StringValue c) { return str(norm(n(a).add(n(c)))); }
    public static Value NSub(final StringValue a, final StringValue c) {
        BigInteger d = n(a).subtract(n(c));
        if (d.signum() < 0) throw new RuntimeException("NSub of a larger number");
        return str(norm(d));
    }
    public static Value NMul(final StringValue a, final StringValue c) { return str(norm(n(a).multiply(n(c)))); }
    public static Value NDiv(final StringValue a, final StringValue c) { return str(norm(n(a).divide(n(c)))); }
    public static Value NMod(final StringValue a, final StringValue c) { return str(norm(n(a).mod(n(c)))); }
    public static Value NLt(final StringValue a, final StringValue c) { return b(n(a).compareTo(n(c)) < 0); }
    public static Value I2N(final IntValue i) { return str(norm(BigInteger.valueOf(i.val))); }
    public static Value N2I(final StringValue a) { return IntValue.gen(n(a).intValueExact()); }

    // ---- cryptography -------------------------------------------------------------------------
    private static byte[] unhex(String h) {
        byte[] r = new byte[h.length() / 2];
        for (int i = 0; i < r.length; i++)
            r[i] = (byte) (Character.digit(h.charAt(2 * i), 16) << 4 | Character.digit(h.charAt(2 * i + 1), 16));
        return r;
    }
    private static final char[] D = "0123456789abcdef".toCharArray();
    private static String hex(byte[] x) {
        char[] r = new char[x.length * 2];
        for (int i = 0; i < x.length; i++) { r[2 * i] = D[(x[i] >> 4) & 15]; r[2 * i + 1] = D[x[i] & 15]; }
        return new String(r);
    }
    public static Value Sha256(final StringValue v) {
        try {
            return str(hex(MessageDigest.getInstance("SHA-256").digest(unhex(v.val.toString()))));
        } catch (java.security.NoSuchAlgorithmException e) { throw new RuntimeException(e); }
    }

    private static final BigInteger P = new BigInteger("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", 16);
    private static final BigInteger N = new BigInteger("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16);
    private static final BigInteger GX = new BigInteger("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798", 16);
    private static final BigInteger GY = new BigInteger("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8", 16);
    private static final BigInteger TWO = BigInteger.TWO, THREE = BigInteger.valueOf(3);
    // affine points; null is the point at infinity
    private static BigInteger[] dbl(BigInteger[] p) {
        if (p == null || p[1].signum() == 0) return null;
        BigInteger l = THREE.multiply(p[0]).multiply(p[0]).multiply(p[1].multiply(TWO).modInverse(P)).mod(P);
        BigInteger x = l.multiply(l).subtract(p[0].multiply(TWO)).mod(P);
        return new BigInteger[] {x, l.multiply(p[0].subtract(x)).subtract(p[1]).mod(P)};
    }
    private static BigInteger[] add(BigInteger[] p, BigInteger[] q) {
        if (p == null) return q;
        if (q == null) return p;
        if (p[0].equals(q[0])) return p[1].equals(q[1]) ? dbl(p) : null;
        BigInteger l = q[1].subtract(p[1]).multiply(q[0].subtract(p[0]).mod(P).modInverse(P)).mod(P);
        BigInteger x = l.multiply(l).subtract(p[0]).subtract(q[0]).mod(P);
        return new BigInteger[] {x, l.multiply(p[0].subtract(x)).subtract(p[1]).mod(P)};
    }
    private static BigInteger[] mul(BigInteger k, BigInteger[] p) {
        BigInteger[] r = null;
        for (int i = k.bitLength() - 1; i >= 0; i--) {
            r = dbl(r);
            if (k.testBit(i)) r = add(r, p);
        }
        return r;
    }
    private static final ConcurrentHashMap<String, String> RECOVERED = new ConcurrentHashMap<>();
    private static String pad64(BigInteger x) { String h = x.toString(16); return "0".repeat(64 - h.length()) + h; }
    private static String recover(byte[] sig, byte[] msg) {
        if (sig.length != 64 || msg.length != 32) return "";
        boolean odd = (sig[32] & 0x80) != 0;
        byte[] c = sig.clone();
        c[32] &= 0x7f;
        BigInteger r = new BigInteger(1, Arrays.copyOfRange(c, 0, 32));
        BigInteger s = new BigInteger(1, Arrays.copyOfRange(c, 32, 64));
        if (r.signum() == 0 || s.signum() == 0 || r.compareTo(N) >= 0 || s.compareTo(N) >= 0) return "";
        BigInteger y2 = r.multiply(r).multiply(r).add(BigInteger.valueOf(7)).mod(P);
        BigInteger y = y2.modPow(P.add(BigInteger.ONE).shiftRight(2), P);
        if (!y.multiply(y).mod(P).equals(y2)) return "";
        if (y.testBit(0) != odd) y = P.subtract(y);
        BigInteger z = new BigInteger(1, msg).mod(N);
        BigInteger ri = r.modInverse(N);
        BigInteger[] q = add(mul(s.multiply(ri).mod(N), new BigInteger[] {r, y}),
                             mul(N.subtract(z).multiply(ri).mod(N), new BigInteger[] {GX, GY}));
        return q == null ? "" : pad64(q[0]) + pad64(q[1]);
    }
    public static Value EcRecover(final StringValue sig, final StringValue msg) {
        return str(RECOVERED.computeIfAbsent(sig.val + "/" + msg.val, k -> recover(unhex(sig.val.toString()), unhex(msg.val.toString()))));
    }

    // ---- output -------------------------------------------------------------------------------
    private static final Map<String, Writer> OUT = new HashMap<>();
    static {
        Runtime.getRuntime().addShutdownHook(new Thread(() -> {
            synchronized (OUT) { for (Writer w : OUT.values()) try { w.close(); } catch (IOException e) { } }
        }));
    }
    public static Value Emit(final StringValue file, final StringValue line) {
        String f = file.val.toString();
        synchronized (OUT) {
            try {
                Writer w = OUT.get(f);
                if (w == null) {
                    w = new BufferedWriter(new OutputStreamWriter(new FileOutputStream(f, true), StandardCharsets.UTF_8), 1 << 16);
                    OUT.put(f, w);
                }
                w.write(line.val.toString());
                w.write('\n');
            } catch (IOException e) { throw new RuntimeException(e); }
        }
        return BoolValue.ValTrue;
    }
}
