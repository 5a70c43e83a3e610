import java.math.BigInteger;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.impl.*;
import tlc2.value.IValue;
import util.UniqueString;

/** Conversions between TLC values and BigIntegers / field elements. */
public class VUtil {
    public static final Value EMPTY = TupleValue.EmptyTuple;
    private static final IntValue[] BYTES = new IntValue[256];
    static { for (int i = 0; i < 256; i++) BYTES[i] = IntValue.gen(i); }

    public static Value[] elems(Value v) {
        if (v instanceof TupleValue) return ((TupleValue) v).elems;
        Value t = v.toTuple();
        if (t == null) throw new RuntimeException("not a sequence: " + v);
        return ((TupleValue) t).elems;
    }
    public static int toInt(Value v) { return ((IntValue) v).val; }

    public static BigInteger big(Value v) {
        Value[] e = elems(v);
        int n = e.length;
        if (n == 0) return BigInteger.ZERO;
        byte[] b = new byte[n];
        for (int i = 0; i < n; i++) {
            int d = ((IntValue) e[i]).val;
            if (d < 0 || d > 255) throw new RuntimeException("not a byte: " + d);
            b[n - 1 - i] = (byte) d;
        }
        return new BigInteger(1, b);
    }
    public static Value val(BigInteger x) {
        if (x.signum() < 0) throw new RuntimeException("negative number");
        if (x.signum() == 0) return EMPTY;
        byte[] b = x.toByteArray();
        int off = b[0] == 0 ? 1 : 0;
        int n = b.length - off;
        Value[] e = new Value[n];
        for (int i = 0; i < n; i++) e[i] = BYTES[b[b.length - 1 - i] & 255];
        return new TupleValue(e);
    }
    public static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

    public static Value get(Value rec, String f) {
        Value r = rec instanceof RecordValue ? rec : rec.toRcd();
        RecordValue rv = (RecordValue) r;
        for (int i = 0; i < rv.names.length; i++)
            if (rv.names[i].toString().equals(f)) return rv.values[i];
        throw new RuntimeException("no field " + f);
    }
    static boolean has(Value rec, String f) {
        RecordValue rv = (RecordValue) (rec instanceof RecordValue ? rec : rec.toRcd());
        for (UniqueString n : rv.names) if (n.toString().equals(f)) return true;
        return false;
    }

    /** A parsed field descriptor. */
    public static final class Fld {
        int kind;             // 0 prime, 1 extension, 2 binary
        BigInteger p;         // prime / modulus polynomial including the leading term
        int n;                // binary width
        Fld b; int d; Object nr;
        BigInteger size;
        Object zero, one;

        Object add(Object x, Object y) {
            switch (kind) {
            case 0: { BigInteger s = ((BigInteger) x).add((BigInteger) y); return s.mod(p); }
            case 2: return ((BigInteger) x).xor((BigInteger) y);
            default: { Object[] a = (Object[]) x, c = (Object[]) y, r = new Object[d];
                for (int i = 0; i < d; i++) r[i] = b.add(a[i], c[i]); return r; }
            }
        }
        Object neg(Object x) {
            switch (kind) {
            case 0: return ((BigInteger) x).negate().mod(p);
            case 2: return x;
            default: { Object[] a = (Object[]) x, r = new Object[d];
                for (int i = 0; i < d; i++) r[i] = b.neg(a[i]); return r; }
            }
        }
        Object sub(Object x, Object y) { return add(x, neg(y)); }
        Object mul(Object x, Object y) {
            switch (kind) {
            case 0: return ((BigInteger) x).multiply((BigInteger) y).mod(p);
            case 2: { BigInteger a = (BigInteger) x, c = (BigInteger) y, r = BigInteger.ZERO;
                for (int i = c.bitLength() - 1; i >= 0; i--) {
                    r = r.shiftLeft(1); if (r.testBit(n)) r = r.xor(p);
                    if (c.testBit(i)) r = r.xor(a);
                }
                return r; }
            default: { Object[] a = (Object[]) x, c = (Object[]) y;
                Object[] t = new Object[2 * d - 1];
                for (int i = 0; i < d; i++) for (int j = 0; j < d; j++) {
                    Object m = b.mul(a[i], c[j]);
                    t[i + j] = t[i + j] == null ? m : b.add(t[i + j], m);
                }
                Object[] r = new Object[d];
                for (int i = 0; i < d; i++)
                    r[i] = i + d < 2 * d - 1 ? b.add(t[i], b.mul(nr, t[i + d])) : t[i];
                return r; }
            }
        }
        Object pow(Object x, BigInteger e) {
            if (kind == 0) return ((BigInteger) x).modPow(e, p);
            Object r = one;
            for (int i = e.bitLength() - 1; i >= 0; i--) { r = mul(r, r); if (e.testBit(i)) r = mul(r, x); }
            return r;
        }
        Object inv(Object x) {
            if (kind == 0) { BigInteger v = (BigInteger) x; return v.signum() == 0 ? v : v.modInverse(p); }
            if (kind == 2) return pow(x, size.subtract(BigInteger.TWO));
            if (eq(x, zero)) return zero;
            // solve x * y = 1 as a linear system over the base field
            Object[] a = (Object[]) x;
            Object[][] m = new Object[d][d + 1];
            for (int j = 0; j < d; j++)           // column j: x * X^j
                for (int i = 0; i < d; i++) {
                    int s = i + j;
                    m[s % d][j] = s >= d ? b.mul(nr, a[i]) : a[i];
                }
            for (int i = 0; i < d; i++) m[i][d] = i == 0 ? b.one : b.zero;
            for (int c = 0; c < d; c++) {
                int piv = -1;
                for (int i = c; i < d; i++) if (!b.eq(m[i][c], b.zero)) { piv = i; break; }
                if (piv < 0) return pow(x, size.subtract(BigInteger.TWO));
                Object[] t = m[piv]; m[piv] = m[c]; m[c] = t;
                Object iv = b.inv(m[c][c]);
                for (int k = c; k <= d; k++) m[c][k] = b.mul(m[c][k], iv);
                for (int i = 0; i < d; i++) if (i != c && !b.eq(m[i][c], b.zero)) {
                    Object f = b.neg(m[i][c]);
                    for (int k = c; k <= d; k++) m[i][k] = b.add(m[i][k], b.mul(f, m[c][k]));
                }
            }
            Object[] r = new Object[d];
            for (int i = 0; i < d; i++) r[i] = m[i][d];
            return r;
        }
        boolean eq(Object x, Object y) {
            if (kind != 1) return x.equals(y);
            Object[] a = (Object[]) x, c = (Object[]) y;
            for (int i = 0; i < d; i++) if (!b.eq(a[i], c[i])) return false;
            return true;
        }
        Object in(Value v) {
            if (kind != 1) return big(v);
            Value[] e = elems(v);
            if (e.length != d) throw new RuntimeException("wrong number of coefficients");
            Object[] r = new Object[d];
            for (int i = 0; i < d; i++) r[i] = b.in(e[i]);
            return r;
        }
        Value out(Object x) {
            if (kind != 1) return val((BigInteger) x);
            Object[] a = (Object[]) x;
            Value[] r = new Value[d];
            for (int i = 0; i < d; i++) r[i] = b.out(a[i]);
            return new TupleValue(r);
        }
    }

    private static final ThreadLocal<java.util.IdentityHashMap<Value, Fld>> TL =
        ThreadLocal.withInitial(java.util.IdentityHashMap::new);
    public static Fld fld(Value v) {
        java.util.IdentityHashMap<Value, Fld> m = TL.get();
        Fld f = m.get(v);
        if (f == null) {
            if (m.size() > 4096) m.clear();
            f = parse(v);
            m.put(v, f);
        }
        return f;
    }
    private static Fld parse(Value v) {
        Fld f = new Fld();
        String k = ((StringValue) get(v, "k")).val.toString();
        if (k.equals("p")) {
            f.kind = 0; f.p = big(get(v, "p")); f.size = f.p;
            f.zero = BigInteger.ZERO; f.one = BigInteger.ONE.mod(f.p);
        } else if (k.equals("2")) {
            f.kind = 2; f.n = toInt(get(v, "n"));
            f.p = big(get(v, "m")).setBit(f.n); f.size = BigInteger.ONE.shiftLeft(f.n);
            f.zero = BigInteger.ZERO; f.one = BigInteger.ONE;
        } else {
            f.kind = 1; f.b = parse(get(v, "b")); f.d = toInt(get(v, "d"));
            f.nr = f.b.in(get(v, "nr")); f.size = f.b.size.pow(f.d);
            Object[] z = new Object[f.d], o = new Object[f.d];
            for (int i = 0; i < f.d; i++) { z[i] = f.b.zero; o[i] = i == 0 ? f.b.one : f.b.zero; }
            f.zero = z; f.one = o;
        }
        return f;
    }
}
