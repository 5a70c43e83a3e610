import java.math.BigInteger;
import java.util.ArrayList;
import tlc2.value.impl.*;

/** Fast versions of the operators of module Curves: the same affine laws. */
public class Curves {
    static final class Cv { VUtil.Fld f; boolean w; Object a, b; }    // b: the Edwards d
    private static final ThreadLocal<java.util.IdentityHashMap<Value, Cv>> TL =
        ThreadLocal.withInitial(java.util.IdentityHashMap::new);
    static Cv cv(Value C) {
        java.util.IdentityHashMap<Value, Cv> m = TL.get();
        Cv c = m.get(C);
        if (c == null) {
            if (m.size() > 4096) m.clear();
            c = new Cv();
            c.f = VUtil.fld(VUtil.get(C, "F"));
            c.w = ((StringValue) VUtil.get(C, "k")).val.toString().equals("w");
            c.a = c.f.in(VUtil.get(C, "a"));
            c.b = c.f.in(VUtil.get(C, c.w ? "b" : "d"));
            m.put(C, c);
        }
        return c;
    }
    static Object[] in(Cv c, Value p) {
        Value[] e = VUtil.elems(p);
        if (e.length == 0) return null;
        if (e.length != 2) throw new RuntimeException("not a point");
        return new Object[] { c.f.in(e[0]), c.f.in(e[1]) };
    }
    static Value out(Cv c, Object[] p) {
        return p == null ? VUtil.EMPTY : new TupleValue(new Value[] { c.f.out(p[0]), c.f.out(p[1]) });
    }
    static Object[] add(Cv c, Object[] p, Object[] q) {
        if (p == null) return q;
        if (q == null) return p;
        VUtil.Fld f = c.f;
        if (c.w) {
            Object s;
            if (f.eq(p[0], q[0])) {
                if (f.eq(q[1], f.neg(p[1]))) return null;
                Object xx = f.mul(p[0], p[0]);
                s = f.mul(f.add(f.add(f.add(xx, xx), xx), c.a), f.inv(f.add(p[1], p[1])));
            } else s = f.mul(f.sub(q[1], p[1]), f.inv(f.sub(q[0], p[0])));
            Object x3 = f.sub(f.mul(s, s), f.add(p[0], q[0]));
            return new Object[] { x3, f.sub(f.mul(s, f.sub(p[0], x3)), p[1]) };
        }
        Object xx = f.mul(p[0], q[0]), yy = f.mul(p[1], q[1]);
        Object k = f.mul(c.b, f.mul(xx, yy));
        Object u = f.add(f.one, k), v = f.sub(f.one, k);
        Object i = f.inv(f.mul(u, v));
        Object x3 = f.mul(f.add(f.mul(p[0], q[1]), f.mul(p[1], q[0])), f.mul(i, v));
        Object y3 = f.mul(f.sub(yy, f.mul(c.a, xx)), f.mul(i, u));
        if (f.eq(x3, f.zero) && f.eq(y3, f.one)) return null;
        return new Object[] { x3, y3 };
    }
    static Object[] mul(Cv c, BigInteger k, Object[] p) {
        Object[] r = null;
        for (int i = k.bitLength() - 1; i >= 0; i--) { r = add(c, r, r); if (k.testBit(i)) r = add(c, r, p); }
        return r;
    }
    public static Value EAdd(Value C, Value P, Value Q) { Cv c = cv(C); return out(c, add(c, in(c, P), in(c, Q))); }
    public static Value EMul(Value C, Value k, Value P) { Cv c = cv(C); return out(c, mul(c, VUtil.big(k), in(c, P))); }
    public static Value ESum(Value C, Value ks, Value Ps) {
        Cv c = cv(C);
        Value[] k = VUtil.elems(ks), p = VUtil.elems(Ps);
        if (k.length != p.length) throw new RuntimeException("lists of different lengths");
        Object[] r = null;
        for (int i = 0; i < k.length; i++) r = add(c, r, mul(c, VUtil.big(k[i]), in(c, p[i])));
        return out(c, r);
    }
    public static Value EOn(Value C, Value P) {
        Cv c = cv(C);
        VUtil.Fld f = c.f;
        Value[] e = VUtil.elems(P);
        if (e.length == 0) return VUtil.bool(true);
        if (e.length != 2) return VUtil.bool(false);
        Object x = f.in(e[0]), y = f.in(e[1]);
        if (!range(f, x) || !range(f, y)) return VUtil.bool(false);
        Object xx = f.mul(x, x), yy = f.mul(y, y);
        if (c.w) return VUtil.bool(f.eq(yy, f.add(f.mul(xx, x), f.add(f.mul(c.a, x), c.b))));
        return VUtil.bool(f.eq(f.add(f.mul(c.a, xx), yy), f.add(f.one, f.mul(c.b, f.mul(xx, yy)))));
    }
    static boolean range(VUtil.Fld f, Object x) {
        if (f.kind == 1) { for (Object o : (Object[]) x) if (!range(f.b, o)) return false; return true; }
        return ((BigInteger) x).compareTo(f.size) < 0;
    }
}
