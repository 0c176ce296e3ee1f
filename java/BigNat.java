import java.math.BigInteger;
import tlc2.value.impl.*;

/* Accelerates BigNat.tla: same results as its TLA+ definitions, computed with BigInteger. */
public class BigNat {
    static final int LB = 13;
    static final int MASK = 8191;

    private static BigInteger big(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        int n = t.elems.length;
        if (n <= 4) {
            long x = 0;
            for (int i = n - 1; i >= 0; --i)
                x = (x << LB) | ((IntValue) t.elems[i]).val;
            return BigInteger.valueOf(x);
        }
        BigInteger r = BigInteger.ZERO;
        for (int i = n - 1; i >= 0; i -= 4) {
            int cnt = Math.min(4, i + 1);
            long x = 0;
            for (int k = 0; k < cnt; ++k)
                x = (x << LB) | ((IntValue) t.elems[i - k]).val;
            r = r.shiftLeft(LB * cnt).or(BigInteger.valueOf(x));
        }
        return r;
    }

    private static Value val(BigInteger b) {
        int n = (b.bitLength() + LB - 1) / LB;
        Value[] e = new Value[n];
        for (int i = 0; i < n; ) {
            long x = b.longValue() & ((1L << 52) - 1);
            for (int k = 0; k < 4 && i < n; ++k, ++i, x >>= LB)
                e[i] = IntValue.gen((int) (x & MASK));
            b = b.shiftRight(52);
        }
        return new TupleValue(e);
    }

    public static Value BAdd(Value a, Value b) { return val(big(a).add(big(b))); }
    public static Value BSub(Value a, Value b) { return val(big(a).subtract(big(b))); }
    public static Value BMul(Value a, Value b) { return val(big(a).multiply(big(b))); }
    public static Value BCmp(Value a, Value b) { return IntValue.gen(big(a).compareTo(big(b))); }
    public static Value BShl(Value a, Value k) { return val(big(a).shiftLeft(((IntValue) k).val)); }
    public static Value BShr(Value a, Value k) { return val(big(a).shiftRight(((IntValue) k).val)); }
    public static Value BBits(Value a) { return IntValue.gen(big(a).bitLength()); }
    public static Value BTrim(Value a) { return val(big(a)); }
    public static Value BLowZero(Value a, Value k) {
        BigInteger x = big(a);
        return (x.signum() == 0 || x.getLowestSetBit() >= ((IntValue) k).val) ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
}
