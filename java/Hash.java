import java.security.MessageDigest;
import tlc2.value.impl.*;

/** Fast version of Digest of module Hash. */
public class Hash {
    public static Value Digest(Value m) throws Exception {
        Value[] e = VUtil.elems(m);
        byte[] b = new byte[e.length];
        for (int i = 0; i < b.length; i++) b[i] = (byte) VUtil.toInt(e[i]);
        byte[] d = MessageDigest.getInstance("SHA-512").digest(b);
        Value[] r = new Value[d.length];
        for (int i = 0; i < r.length; i++) r[i] = IntValue.gen(d[i] & 255);
        return new TupleValue(r);
    }
}
