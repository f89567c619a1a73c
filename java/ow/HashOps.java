package ow;

import java.util.concurrent.ConcurrentHashMap;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/**
 * The compression functions of Hashes.tla applied to very many blocks of zeros.
 * HashCheck.tla compares them with their definitions.
 */
public final class HashOps {
    private HashOps() {}

    private static final ConcurrentHashMap<String, Value> DONE = new ConcurrentHashMap<>();

    private static int[] in(Value s) {
        TupleValue t = (TupleValue) s.toTuple();
        int[] r = new int[t.elems.length];
        for (int k = 0; k < r.length; k++) r[k] = Big.get(t.elems[k]).intValue();
        return r;
    }

    private static Value out(int[] h) {
        Value[] r = new Value[h.length];
        for (int k = 0; k < h.length; k++) r[k] = Big.of(h[k] & 0xffffffffL);
        return new TupleValue(r);
    }

    private interface Run { void on(int[] h, int n); }

    private static Value done(String name, Value n, Run f, Value... from) {
        StringBuilder key = new StringBuilder(name).append(n);
        for (Value v : from) for (int x : in(v)) key.append(' ').append(x);
        return DONE.computeIfAbsent(key.toString(), k -> {
            int[] h = in(from[0]);
            f.on(h, Big.get(n).intValueExact());
            return out(h);
        });
    }

    private static int rol(int x, int n) { return Integer.rotateLeft(x, n); }

    private static int ror(int x, int n) { return Integer.rotateRight(x, n); }

    // ------------------------------------------------------------------ SM3
    private static int p0(int x) { return x ^ rol(x, 9) ^ rol(x, 17); }

    private static int p1(int x) { return x ^ rol(x, 15) ^ rol(x, 23); }

    private static void sm3(int[] v) {        // the message schedule of a zero block is zero
        int a = v[0], b = v[1], c = v[2], d = v[3], e = v[4], f = v[5], g = v[6], h = v[7];
        for (int j = 0; j < 64; j++) {
            int t = j < 16 ? 0x79cc4519 : 0x7a879d8a;
            int ss1 = rol(rol(a, 12) + e + rol(t, j), 7), ss2 = ss1 ^ rol(a, 12);
            int ff = j < 16 ? a ^ b ^ c : (a & b) | (a & c) | (b & c);
            int gg = j < 16 ? e ^ f ^ g : (e & f) | (~e & g);
            int tt1 = ff + d + ss2, tt2 = gg + h + ss1;
            d = c; c = rol(b, 9); b = a; a = tt1;
            h = g; g = rol(f, 19); f = e; e = p0(tt2);
        }
        v[0] ^= a; v[1] ^= b; v[2] ^= c; v[3] ^= d; v[4] ^= e; v[5] ^= f; v[6] ^= g; v[7] ^= h;
    }

    @TLAPlusOperator(identifier = "Sm3Zeros", module = "Hashes", warn = false)
    public static Value sm3Zeros(Value h, Value n) {
        return done("SM3", n, (v, k) -> { for (; k > 0; k--) sm3(v); }, h);
    }

    // ----------------------------------------------------- BLAKE and BLAKE2
    private static final int[][] S = {
        {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}, {14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3},
        {11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4}, {7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8},
        {9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13}, {2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9},
        {12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11}, {13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10},
        {6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5}, {10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0}};
    private static final int[] C = {
        0x243f6a88, 0x85a308d3, 0x13198a2e, 0x03707344, 0xa4093822, 0x299f31d0, 0x082efa98, 0xec4e6c89,
        0x452821e6, 0x38d01377, 0xbe5466cf, 0x34e90c6c, 0xc0ac29b7, 0xc97c50dd, 0x3f84d5b5, 0xb5470917};
    private static final int[] IV = {
        0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19};
    private static final int[][] Q = {
        {0, 4, 8, 12}, {1, 5, 9, 13}, {2, 6, 10, 14}, {3, 7, 11, 15}, {0, 5, 10, 15}, {1, 6, 11, 12}, {2, 7, 8, 13}, {3, 4, 9, 14}};

    private static void mix(int[] v, int[] q, int x, int y) {
        int a = v[q[0]], b = v[q[1]], c = v[q[2]], d = v[q[3]];
        a += b + x; d = ror(d ^ a, 16); c += d; b = ror(b ^ c, 12);
        a += b + y; d = ror(d ^ a, 8); c += d; b = ror(b ^ c, 7);
        v[q[0]] = a; v[q[1]] = b; v[q[2]] = c; v[q[3]] = d;
    }

    @TLAPlusOperator(identifier = "Blake256Zeros", module = "Hashes", warn = false)
    public static Value blake256Zeros(Value salt, Value h, Value n) {
        int[] s = in(salt);
        return done("BLAKE256", n, (u, k) -> {
            int[] v = new int[16];
            for (long i = 1; i <= k; i++) {
                long t = 512 * i;
                for (int j = 0; j < 8; j++) v[j] = u[j];
                for (int j = 0; j < 4; j++) v[8 + j] = s[j] ^ C[j];
                v[12] = C[4] ^ (int) t; v[13] = C[5] ^ (int) t;
                v[14] = C[6] ^ (int) (t >>> 32); v[15] = C[7] ^ (int) (t >>> 32);
                for (int r = 0; r < 14; r++)
                    for (int j = 0; j < 8; j++) mix(v, Q[j], C[S[r % 10][2 * j + 1]], C[S[r % 10][2 * j]]);
                for (int j = 0; j < 8; j++) u[j] ^= s[j % 4] ^ v[j] ^ v[j + 8];
            }
        }, h, salt);
    }

    @TLAPlusOperator(identifier = "Blake2sZeros", module = "Hashes", warn = false)
    public static Value blake2sZeros(Value h, Value n) {
        return done("BLAKE2S", n, (u, k) -> {
            int[] v = new int[16];
            for (long i = 1; i <= k; i++) {
                long t = 64 * i;
                for (int j = 0; j < 8; j++) { v[j] = u[j]; v[8 + j] = IV[j]; }
                v[12] ^= (int) t; v[13] ^= (int) (t >>> 32);
                for (int r = 0; r < 10; r++)
                    for (int j = 0; j < 8; j++) mix(v, Q[j], 0, 0);
                for (int j = 0; j < 8; j++) u[j] ^= v[j] ^ v[j + 8];
            }
        }, h);
    }
}
