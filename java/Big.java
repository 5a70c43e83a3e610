import java.math.BigInteger;
import tlc2.value.impl.*;

/** Fast versions of the operators of module Big (TLC picks this class up by name). */
public class Big {
    public static Value BAdd(Value a, Value b) { return VUtil.val(VUtil.big(a).add(VUtil.big(b))); }
    public static Value BSub(Value a, Value b) { return VUtil.val(VUtil.big(a).subtract(VUtil.big(b))); }
    public static Value BMul(Value a, Value b) { return VUtil.val(VUtil.big(a).multiply(VUtil.big(b))); }
    public static Value BDiv(Value a, Value b) { return VUtil.val(VUtil.big(a).divide(VUtil.big(b))); }
    public static Value BMod(Value a, Value b) { return VUtil.val(VUtil.big(a).mod(VUtil.big(b))); }
    public static Value BGcd(Value a, Value b) { return VUtil.val(VUtil.big(a).gcd(VUtil.big(b))); }
    public static Value BLt(Value a, Value b) { return VUtil.bool(VUtil.big(a).compareTo(VUtil.big(b)) < 0); }
    public static Value BLe(Value a, Value b) { return VUtil.bool(VUtil.big(a).compareTo(VUtil.big(b)) <= 0); }
    public static Value BAnd(Value a, Value b) { return VUtil.val(VUtil.big(a).and(VUtil.big(b))); }
    public static Value BOr(Value a, Value b) { return VUtil.val(VUtil.big(a).or(VUtil.big(b))); }
    public static Value BBit(Value a, Value i) { return IntValue.gen(VUtil.big(a).testBit(VUtil.toInt(i)) ? 1 : 0); }
    public static Value BBitLen(Value a) { return IntValue.gen(VUtil.big(a).bitLength()); }
    public static Value BPow2(Value k) { return VUtil.val(BigInteger.ONE.shiftLeft(VUtil.toInt(k))); }
    public static Value BPowMod(Value a, Value e, Value m) {
        return VUtil.val(VUtil.big(a).modPow(VUtil.big(e), VUtil.big(m))); }
    public static Value BFromBits(Value s) {
        Value[] e = VUtil.elems(s);
        BigInteger r = BigInteger.ZERO;
        for (int i = 0; i < e.length; i++) if (VUtil.toInt(e[i]) != 0) r = r.setBit(i);
        return VUtil.val(r);
    }
    public static Value BInt(Value n) { return VUtil.val(BigInteger.valueOf(VUtil.toInt(n))); }
    public static Value BPow(Value a, Value n) { return VUtil.val(VUtil.big(a).pow(VUtil.toInt(n))); }
}
