import java.security.MessageDigest;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** TLC evaluation of the operators declared in Sha.tla. */
public class Sha {
    private static final char[] DIG = "0123456789abcdef".toCharArray();
    private static final ThreadLocal<MessageDigest> MD = ThreadLocal.withInitial(() -> {
        try {
            return MessageDigest.getInstance("SHA-256");
        } catch (Exception e) {
            throw new RuntimeException(e);
        }
    });

    private static byte[] unhex(String s) {
        if (s.length() % 2 != 0) {
            throw new RuntimeException("odd hex string " + s);
        }
        byte[] b = new byte[s.length() / 2];
        for (int i = 0; i < b.length; i++) {
            int hi = Character.digit(s.charAt(2 * i), 16);
            int lo = Character.digit(s.charAt(2 * i + 1), 16);
            if (hi < 0 || lo < 0) {
                throw new RuntimeException("not a hex string " + s);
            }
            b[i] = (byte) (hi * 16 + lo);
        }
        return b;
    }

    private static String hex(byte[] b, int n) {
        char[] c = new char[2 * n];
        for (int i = 0; i < n; i++) {
            c[2 * i] = DIG[(b[i] >> 4) & 15];
            c[2 * i + 1] = DIG[b[i] & 15];
        }
        return new String(c);
    }

    private static String str(Value v) {
        return ((StringValue) v).val.toString();
    }

    public static Value ShaHash(Value l, Value r) {
        byte[] a = unhex(str(l));
        byte[] b = unhex(str(r));
        MessageDigest md = MD.get();
        md.reset();
        md.update(a);
        md.update(b);
        return new StringValue(hex(md.digest(), a.length));
    }

    /** A name for any value: its fingerprint. */
    public static Value Digest(Value v) {
        v.deepNormalize();
        return new StringValue(Long.toHexString(v.fingerPrint(tlc2.util.FP64.New())));
    }

    public static Value Zeros(Value n) {
        int k = ((IntValue) n).val;
        char[] c = new char[k];
        java.util.Arrays.fill(c, '0');
        return new StringValue(new String(c));
    }

    public static Value HexBytes(Value s) {
        byte[] b = unhex(str(s));
        Value[] out = new Value[b.length];
        for (int i = 0; i < b.length; i++) {
            out[i] = IntValue.gen(b[i] & 255);
        }
        return new TupleValue(out);
    }

    public static Value BytesHex(Value q) {
        TupleValue t = (TupleValue) q.toTuple();
        byte[] b = new byte[t.elems.length];
        for (int i = 0; i < b.length; i++) {
            b[i] = (byte) ((IntValue) t.elems[i]).val;
        }
        return new StringValue(hex(b, b.length));
    }

    public static Value JoinAll(Value q) {
        TupleValue t = (TupleValue) q.toTuple();
        StringBuilder sb = new StringBuilder();
        for (Value v : t.elems) {
            sb.append(str(v));
        }
        return new StringValue(sb.toString());
    }

    public static Value Emit(Value tag, Value text) {
        synchronized (Sha.class) {
            System.out.println("@@" + str(tag) + " " + str(text));
        }
        return tlc2.value.impl.BoolValue.ValTrue;
    }
}
