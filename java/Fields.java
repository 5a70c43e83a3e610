import tlc2.value.impl.*;

/** Fast versions of the operators of module Fields. */
public class Fields {
    public static Value FAdd(Value F, Value a, Value b) { VUtil.Fld f = VUtil.fld(F); return f.out(f.add(f.in(a), f.in(b))); }
    public static Value FSub(Value F, Value a, Value b) { VUtil.Fld f = VUtil.fld(F); return f.out(f.sub(f.in(a), f.in(b))); }
    public static Value FNeg(Value F, Value a) { VUtil.Fld f = VUtil.fld(F); return f.out(f.neg(f.in(a))); }
    public static Value FMul(Value F, Value a, Value b) { VUtil.Fld f = VUtil.fld(F); return f.out(f.mul(f.in(a), f.in(b))); }
    public static Value FPow(Value F, Value a, Value e) { VUtil.Fld f = VUtil.fld(F); return f.out(f.pow(f.in(a), VUtil.big(e))); }
    public static Value FInv(Value F, Value a) { VUtil.Fld f = VUtil.fld(F); return f.out(f.inv(f.in(a))); }
    public static Value FZero(Value F) { VUtil.Fld f = VUtil.fld(F); return f.out(f.zero); }
    public static Value FOne(Value F) { VUtil.Fld f = VUtil.fld(F); return f.out(f.one); }
    public static Value FSize(Value F) { return VUtil.val(VUtil.fld(F).size); }
}
