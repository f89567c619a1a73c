package ow;

import java.math.BigInteger;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.OpValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;
import tlc2.tool.EvalControl;

/** Arbitrary-precision evaluation of the operators of Num.tla. */
public final class NumOps {
    private NumOps() {}

    private static BigInteger g(Value v) { return Big.get(v); }

    private static int i(Value v) { return g(v).intValueExact(); }

    private static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

    // ------------------------------------------------------------ integers
    @TLAPlusOperator(identifier = "\\doteq", module = "Num", warn = false)
    public static Value eq(Value a, Value c) { return b(g(a).equals(g(c))); }

    @TLAPlusOperator(identifier = "\\prec", module = "Num", warn = false)
    public static Value lt(Value a, Value c) { return b(g(a).compareTo(g(c)) < 0); }

    @TLAPlusOperator(identifier = "\\preceq", module = "Num", warn = false)
    public static Value le(Value a, Value c) { return b(g(a).compareTo(g(c)) <= 0); }

    @TLAPlusOperator(identifier = "++", module = "Num", warn = false)
    public static Value add(Value a, Value c) { return Big.of(g(a).add(g(c))); }

    @TLAPlusOperator(identifier = "--", module = "Num", warn = false)
    public static Value sub(Value a, Value c) { return Big.of(g(a).subtract(g(c))); }

    @TLAPlusOperator(identifier = "**", module = "Num", warn = false)
    public static Value mul(Value a, Value c) { return Big.of(g(a).multiply(g(c))); }

    @TLAPlusOperator(identifier = "//", module = "Num", warn = false)
    public static Value div(Value a, Value c) {
        BigInteger[] qr = g(a).divideAndRemainder(g(c));
        return Big.of(qr[1].signum() < 0 ? qr[0].subtract(BigInteger.ONE) : qr[0]);
    }

    @TLAPlusOperator(identifier = "%%", module = "Num", warn = false)
    public static Value mod(Value a, Value c) { return Big.of(g(a).mod(g(c))); }

    @TLAPlusOperator(identifier = "AddM", module = "Num", warn = false)
    public static Value addM(Value a, Value c, Value m) { return Big.of(g(a).add(g(c)).mod(g(m))); }

    @TLAPlusOperator(identifier = "SubM", module = "Num", warn = false)
    public static Value subM(Value a, Value c, Value m) { return Big.of(g(a).subtract(g(c)).mod(g(m))); }

    @TLAPlusOperator(identifier = "MulM", module = "Num", warn = false)
    public static Value mulM(Value a, Value c, Value m) { return Big.of(g(a).multiply(g(c)).mod(g(m))); }

    @TLAPlusOperator(identifier = "NegM", module = "Num", warn = false)
    public static Value negM(Value a, Value m) { return Big.of(g(a).negate().mod(g(m))); }

    @TLAPlusOperator(identifier = "Pow", module = "Num", warn = false)
    public static Value pow(Value a, Value k) { return Big.of(g(a).pow(i(k))); }

    @TLAPlusOperator(identifier = "PowM", module = "Num", warn = false)
    public static Value powM(Value a, Value k, Value m) { return Big.of(g(a).modPow(g(k), g(m))); }

    @TLAPlusOperator(identifier = "InvM", module = "Num", warn = false)
    public static Value invM(Value a, Value m) {
        BigInteger mm = g(m), aa = g(a).mod(mm);
        if (!aa.gcd(mm).equals(BigInteger.ONE)) return IntValue.ValZero;
        return Big.of(aa.modInverse(mm));
    }

    /** A square root modulo a prime (Tonelli-Shanks), or -1. */
    static BigInteger sqrt(BigInteger a, BigInteger p) {
        BigInteger one = BigInteger.ONE, two = BigInteger.TWO;
        a = a.mod(p);
        if (a.signum() == 0) return BigInteger.ZERO;
        if (p.equals(two)) return a;
        BigInteger pm1 = p.subtract(one);
        if (!a.modPow(pm1.shiftRight(1), p).equals(one)) return one.negate();
        if (p.testBit(0) && p.testBit(1)) return a.modPow(p.add(one).shiftRight(2), p);
        int s = pm1.getLowestSetBit();
        BigInteger q = pm1.shiftRight(s), z = two;
        while (z.modPow(pm1.shiftRight(1), p).equals(one)) z = z.add(one);
        BigInteger c = z.modPow(q, p), r = a.modPow(q.add(one).shiftRight(1), p), t = a.modPow(q, p);
        int m = s;
        while (!t.equals(one)) {
            int k = 0;
            BigInteger x = t;
            while (!x.equals(one)) { x = x.multiply(x).mod(p); k++; }
            BigInteger bb = c.modPow(one.shiftLeft(m - k - 1), p);
            r = r.multiply(bb).mod(p);
            c = bb.multiply(bb).mod(p);
            t = t.multiply(c).mod(p);
            m = k;
        }
        return r;
    }

    @TLAPlusOperator(identifier = "SqrtM", module = "Num", warn = false)
    public static Value sqrtM(Value a, Value m) { return Big.of(sqrt(g(a), g(m))); }

    @TLAPlusOperator(identifier = "Bit", module = "Num", warn = false)
    public static Value bit(Value a, Value n) { return IntValue.gen(g(a).testBit(i(n)) ? 1 : 0); }

    @TLAPlusOperator(identifier = "BitLen", module = "Num", warn = false)
    public static Value bitLen(Value a) { return IntValue.gen(g(a).bitLength()); }

    @TLAPlusOperator(identifier = "BitsBE", module = "Num", warn = false)
    public static Value bitsBE(Value a) {
        BigInteger x = g(a);
        int n = x.bitLength();
        Value[] r = new Value[n];
        for (int k = 0; k < n; k++) r[k] = IntValue.gen(x.testBit(n - 1 - k) ? 1 : 0);
        return new TupleValue(r);
    }

    // --------------------------------------------------------------- bytes
    static byte[] bytes(Value s) {
        TupleValue t = (TupleValue) s.toTuple();
        if (t == null) throw new RuntimeException("Num: not a byte string: " + s);
        byte[] r = new byte[t.elems.length];
        for (int k = 0; k < r.length; k++) r[k] = (byte) ((IntValue) t.elems[k]).val;
        return r;
    }

    static Value seq(byte[] d) {
        Value[] r = new Value[d.length];
        for (int k = 0; k < r.length; k++) r[k] = IntValue.gen(d[k] & 255);
        return new TupleValue(r);
    }

    private static byte[] rev(byte[] d) {
        byte[] r = new byte[d.length];
        for (int k = 0; k < d.length; k++) r[k] = d[d.length - 1 - k];
        return r;
    }

    private static byte[] be(BigInteger n, int len) {
        if (n.signum() < 0 || n.bitLength() > 8 * len)
            throw new RuntimeException("Num: " + n + " does not fit in " + len + " bytes");
        byte[] d = n.toByteArray(), r = new byte[len];
        for (int k = 0; k < len && k < d.length; k++) r[len - 1 - k] = d[d.length - 1 - k];
        return r;
    }

    @TLAPlusOperator(identifier = "NatBE", module = "Num", warn = false)
    public static Value natBE(Value s) { return Big.of(new BigInteger(1, bytes(s))); }

    @TLAPlusOperator(identifier = "NatLE", module = "Num", warn = false)
    public static Value natLE(Value s) { return Big.of(new BigInteger(1, rev(bytes(s)))); }

    @TLAPlusOperator(identifier = "BytesBE", module = "Num", warn = false)
    public static Value bytesBE(Value n, Value len) { return seq(be(g(n), i(len))); }

    @TLAPlusOperator(identifier = "BytesLE", module = "Num", warn = false)
    public static Value bytesLE(Value n, Value len) { return seq(rev(be(g(n), i(len)))); }

    static byte[] unhex(String s) {
        if (s.length() % 2 != 0) throw new RuntimeException("Num: odd hex string");
        byte[] r = new byte[s.length() / 2];
        for (int k = 0; k < r.length; k++)
            r[k] = (byte) Integer.parseInt(s.substring(2 * k, 2 * k + 2), 16);
        return r;
    }

    @TLAPlusOperator(identifier = "HexNat", module = "Num", warn = false)
    public static Value hexNat(Value s) {
        String h = ((StringValue) s).val.toString();
        return Big.of(h.isEmpty() ? BigInteger.ZERO : new BigInteger(h, 16));
    }

    @TLAPlusOperator(identifier = "HexBytes", module = "Num", warn = false)
    public static Value hexBytes(Value s) { return seq(unhex(((StringValue) s).val.toString())); }

    @TLAPlusOperator(identifier = "ToHex", module = "Num", warn = false)
    public static Value toHex(Value s) {
        StringBuilder sb = new StringBuilder();
        for (byte x : bytes(s)) sb.append(String.format("%02x", x & 255));
        return new StringValue(sb.toString());
    }

    // --------------------------------------------------------------- words
    private static BigInteger mask(int w) { return BigInteger.ONE.shiftLeft(w).subtract(BigInteger.ONE); }

    private static final BigInteger M32 = mask(32), M64 = mask(64);

    private static BigInteger msk(int w) { return w == 32 ? M32 : w == 64 ? M64 : mask(w); }

    @TLAPlusOperator(identifier = "WXor", module = "Num", warn = false)
    public static Value wxor(Value a, Value c) { return Big.of(g(a).xor(g(c))); }

    @TLAPlusOperator(identifier = "WXor3", module = "Num", warn = false)
    public static Value wxor3(Value a, Value c, Value d) { return Big.of(g(a).xor(g(c)).xor(g(d))); }

    @TLAPlusOperator(identifier = "WAnd", module = "Num", warn = false)
    public static Value wand(Value a, Value c) { return Big.of(g(a).and(g(c))); }

    @TLAPlusOperator(identifier = "WOr", module = "Num", warn = false)
    public static Value wor(Value a, Value c) { return Big.of(g(a).or(g(c))); }

    @TLAPlusOperator(identifier = "WNot", module = "Num", warn = false)
    public static Value wnot(Value w, Value a) { return Big.of(g(a).xor(msk(i(w)))); }

    @TLAPlusOperator(identifier = "WAdd", module = "Num", warn = false)
    public static Value wadd(Value w, Value a, Value c) { return Big.of(g(a).add(g(c)).and(msk(i(w)))); }

    @TLAPlusOperator(identifier = "WAdd3", module = "Num", warn = false)
    public static Value wadd3(Value w, Value a, Value c, Value d) {
        return Big.of(g(a).add(g(c)).add(g(d)).and(msk(i(w))));
    }

    @TLAPlusOperator(identifier = "WAdd4", module = "Num", warn = false)
    public static Value wadd4(Value w, Value a, Value c, Value d, Value e) {
        return Big.of(g(a).add(g(c)).add(g(d)).add(g(e)).and(msk(i(w))));
    }

    @TLAPlusOperator(identifier = "WAdd5", module = "Num", warn = false)
    public static Value wadd5(Value w, Value a, Value c, Value d, Value e, Value f) {
        return Big.of(g(a).add(g(c)).add(g(d)).add(g(e)).add(g(f)).and(msk(i(w))));
    }

    @TLAPlusOperator(identifier = "WShr", module = "Num", warn = false)
    public static Value wshr(Value a, Value n) { return Big.of(g(a).shiftRight(i(n))); }

    @TLAPlusOperator(identifier = "WShl", module = "Num", warn = false)
    public static Value wshl(Value w, Value a, Value n) { return Big.of(g(a).shiftLeft(i(n)).and(msk(i(w)))); }

    private static BigInteger rotl(int w, BigInteger a, int n) {
        n = ((n % w) + w) % w;
        return a.shiftLeft(n).or(a.shiftRight(w - n)).and(msk(w));
    }

    @TLAPlusOperator(identifier = "WRotl", module = "Num", warn = false)
    public static Value wrotl(Value w, Value a, Value n) { return Big.of(rotl(i(w), g(a), i(n))); }

    @TLAPlusOperator(identifier = "WRotr", module = "Num", warn = false)
    public static Value wrotr(Value w, Value a, Value n) { return Big.of(rotl(i(w), g(a), -i(n))); }

    private static Value words(Value s, int n, boolean big) {
        byte[] d = bytes(s);
        Value[] r = new Value[d.length / n];
        byte[] w = new byte[n];
        for (int k = 0; k < r.length; k++) {
            for (int j = 0; j < n; j++) w[j] = big ? d[k * n + j] : d[k * n + n - 1 - j];
            r[k] = Big.of(new BigInteger(1, w));
        }
        return new TupleValue(r);
    }

    private static Value unwords(Value s, int n, boolean big) {
        TupleValue t = (TupleValue) s.toTuple();
        byte[] d = new byte[t.elems.length * n];
        for (int k = 0; k < t.elems.length; k++) {
            byte[] w = be(g(t.elems[k]), n);
            for (int j = 0; j < n; j++) d[k * n + j] = big ? w[j] : w[n - 1 - j];
        }
        return seq(d);
    }

    @TLAPlusOperator(identifier = "WordsBE", module = "Num", warn = false)
    public static Value wordsBE(Value s, Value n) { return words(s, i(n), true); }

    @TLAPlusOperator(identifier = "WordsLE", module = "Num", warn = false)
    public static Value wordsLE(Value s, Value n) { return words(s, i(n), false); }

    @TLAPlusOperator(identifier = "UnwordsBE", module = "Num", warn = false)
    public static Value unwordsBE(Value s, Value n) { return unwords(s, i(n), true); }

    @TLAPlusOperator(identifier = "UnwordsLE", module = "Num", warn = false)
    public static Value unwordsLE(Value s, Value n) { return unwords(s, i(n), false); }

    // ---------------------------------------------------------- evaluation
    @TLAPlusOperator(identifier = "Strict", module = "Num", warn = false)
    public static Value strict(Value v) {
        Value t = v.toTuple();
        if (t != null) {
            for (Value e : ((TupleValue) t).elems) e.deepNormalize();
            return t;
        }
        v.deepNormalize();
        return v;
    }

    private static Value apply(Value f, Value a, Value c) {
        return ((OpValue) f).eval(new Value[] { a, c }, EvalControl.Clear);
    }

    @TLAPlusOperator(identifier = "Fold", module = "Num", warn = false)
    public static Value fold(OpValue f, Value acc, Value s) {
        TupleValue t = (TupleValue) s.toTuple();
        for (Value e : t.elems) acc = apply(f, acc, e);
        return acc;
    }

    @TLAPlusOperator(identifier = "FoldN", module = "Num", warn = false)
    public static Value foldN(OpValue f, Value acc, Value from, Value to) {
        int hi = i(to);
        for (int k = i(from); k <= hi; k++) acc = apply(f, acc, IntValue.gen(k));
        return acc;
    }
}
