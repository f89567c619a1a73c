package ow;

import java.math.BigInteger;
import tlc2.value.IValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.UserObj;
import tlc2.value.impl.UserValue;
import tlc2.value.impl.Value;

/**
 * An integer that does not fit TLC's 32-bit IntValue.  Values that do fit are
 * always represented by IntValue, so equality of the two representations
 * coincides with equality of the integers they denote.
 */
public final class Big extends UserObj {
    public final BigInteger v;

    public Big(BigInteger v) { this.v = v; }

    private static final BigInteger MIN = BigInteger.valueOf(Integer.MIN_VALUE);
    private static final BigInteger MAX = BigInteger.valueOf(Integer.MAX_VALUE);

    public static Value of(BigInteger b) {
        if (b.bitLength() <= 31) return IntValue.gen(b.intValue());
        return new UserValue(new Big(b));
    }

    public static Value of(long l) {
        if (l >= Integer.MIN_VALUE && l <= Integer.MAX_VALUE) return IntValue.gen((int) l);
        return new UserValue(new Big(BigInteger.valueOf(l)));
    }

    public static BigInteger get(Value v) {
        if (v instanceof IntValue) return BigInteger.valueOf(((IntValue) v).val);
        if (v instanceof UserValue && ((UserValue) v).userObj instanceof Big)
            return ((Big) ((UserValue) v).userObj).v;
        throw new RuntimeException("Num: not an integer: " + v.getKindString());
    }

    @Override
    public int compareTo(Value o) {
        if (o instanceof UserValue && ((UserValue) o).userObj instanceof Big)
            return v.compareTo(((Big) ((UserValue) o).userObj).v);
        if (o instanceof IntValue) return v.compareTo(BigInteger.valueOf(((IntValue) o).val));
        throw new RuntimeException("Num: comparing an integer with " + o.getKindString());
    }

    @Override
    public boolean member(Value o) { throw new RuntimeException("Num: an integer is not a set"); }

    @Override
    public boolean isFinite() { return true; }

    @Override
    public StringBuffer toString(StringBuffer sb, int offset, boolean swallow) {
        return sb.append("\"0x").append(v.toString(16)).append("\"");
    }
}
