// TLC module overrides for module Big (spec/Big.tla): the operators of BigPure.tla on
// java.math.BigInteger.  MCBig.tla checks that both definitions agree.
import java.math.BigInteger;
import tlc2.value.impl.*;

public class Big {
    private static final BigInteger POW[] = new BigInteger[8192];
    private static final IntValue[] LIMB = new IntValue[32768];
    private static final IntValue M1 = IntValue.gen(-1), Z = IntValue.gen(0), P1 = IntValue.gen(1);
    private static final TupleValue ZERO;
    static {
        for (int i = 0; i < 32768; i++) LIMB[i] = IntValue.gen(i);
        ZERO = new TupleValue(new Value[]{Z});
    }

    static BigInteger get(Value v) {
        final TupleValue t = (v instanceof TupleValue) ? (TupleValue) v : (TupleValue) v.toTuple();
        final Value[] e = t.elems;
        final int s = ((IntValue) e[0]).val;
        if (s == 0) return BigInteger.ZERO;
        final int n = e.length - 1;
        final int bits = 15 * n;
        final int words = (bits + 31) / 32;
        final byte[] mag = new byte[words * 4];
        long acc = 0; int nb = 0; int pos = mag.length - 1;
        for (int i = 1; i <= n; i++) {
            acc |= ((long) ((IntValue) e[i]).val) << nb;
            nb += 15;
            while (nb >= 8) { mag[pos--] = (byte) acc; acc >>>= 8; nb -= 8; }
        }
        if (nb > 0 && pos >= 0) mag[pos] = (byte) acc;
        return new BigInteger(s, mag);
    }

    static Value put(BigInteger b) {
        final int s = b.signum();
        if (s == 0) return ZERO;
        final BigInteger a = b.abs();
        final byte[] mag = a.toByteArray();
        final int bits = a.bitLength();
        final int n = (bits + 14) / 15;
        final Value[] e = new Value[n + 1];
        e[0] = s > 0 ? P1 : M1;
        long acc = 0; int nb = 0; int pos = mag.length - 1;
        for (int i = 1; i <= n; i++) {
            while (nb < 15 && pos >= 0) { acc |= ((long) (mag[pos--] & 0xff)) << nb; nb += 8; }
            e[i] = LIMB[(int) (acc & 32767)];
            acc >>>= 15; nb -= 15;
        }
        return new TupleValue(e);
    }

    private static int i(Value v) { return ((IntValue) v).val; }
    private static BigInteger shr(BigInteger a, int k) {   // toward zero
        return a.signum() >= 0 ? a.shiftRight(k) : a.negate().shiftRight(k).negate();
    }

    public static Value BInt(Value n) { return put(BigInteger.valueOf(i(n))); }
    public static Value BAdd(Value a, Value b) { return put(get(a).add(get(b))); }
    public static Value BSub(Value a, Value b) { return put(get(a).subtract(get(b))); }
    public static Value BMul(Value a, Value b) { return put(get(a).multiply(get(b))); }
    public static Value BDiv(Value a, Value b) { return put(get(a).divide(get(b))); }
    public static Value BNeg(Value a) { return put(get(a).negate()); }
    public static Value BAbs(Value a) { return put(get(a).abs()); }
    public static Value BShl(Value a, Value k) { return put(get(a).shiftLeft(i(k))); }
    public static Value BShr(Value a, Value k) { return put(shr(get(a), i(k))); }
    public static Value BSqrt(Value a) { return put(get(a).sqrt()); }
    public static Value BCmp(Value a, Value b) { int c = get(a).compareTo(get(b)); return IntValue.gen(c); }
    public static Value BLeq(Value a, Value b) {
        return get(a).compareTo(get(b)) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    public static Value BMulShr(Value a, Value b, Value k) { return put(shr(get(a).multiply(get(b)), i(k))); }
    public static Value BScaled(Value e, Value hi, Value lo, Value p) {
        final BigInteger m = BigInteger.valueOf(((long) i(hi)) * (1L << 27) + i(lo));
        final int sh = i(e) + i(p);
        return put(sh >= 0 ? m.shiftLeft(sh) : shr(m, -sh));
    }
}
