// TLC module override for spec/Dyadic.tla: the same operators on java.math.BigInteger.
//
// A number is the TLA+ tuple <<sgn, exp, limb_0, limb_1, ...>> with
//   sgn in {-1,1}: value = sgn * (SUM limb_i * 2^(30 i)) * 2^exp, mantissa odd (canonical form)
//   <<0, 0>> zero; <<0, 1>> negative zero (input only; every operation returns <<0,0>> for zero)
//   <<2, 0>> NaN, <<3, 0>> +infinity, <<4, 0>> -infinity (input only; arithmetic on them is an error)
import java.math.BigInteger;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

public class Dyadic {
    static final class N {
        final BigInteger m; final int e;            // value = m * 2^e
        N(BigInteger m, int e) { this.m = m; this.e = e; }
    }
    private static final BigInteger MASK = BigInteger.valueOf((1L << 30) - 1);
    private static final TupleValue ZERO =
        new TupleValue(new Value[] { IntValue.gen(0), IntValue.gen(0) });

    static int i(Value v) { return ((IntValue) v).val; }

    private static N get(Value v) {
        Value[] el = ((TupleValue) v.toTuple()).elems;
        int s = i(el[0]);
        if (s == 0) return new N(BigInteger.ZERO, 0);
        if (s != 1 && s != -1) throw new RuntimeException("Dyadic: arithmetic on a special value");
        int n = el.length - 2;
        BigInteger m;
        if (n <= 2) {
            long l = i(el[2]);
            if (n == 2) l |= ((long) i(el[3])) << 30;
            m = BigInteger.valueOf(s < 0 ? -l : l);
        } else {
            byte[] b = new byte[n * 4 + 4];
            // assemble little-endian 30-bit limbs
            m = BigInteger.ZERO;
            for (int k = n - 1; k >= 0; --k) m = m.shiftLeft(30).or(BigInteger.valueOf(i(el[2 + k])));
            if (s < 0) m = m.negate();
        }
        return new N(m, i(el[1]));
    }

    private static Value put(BigInteger m, int e) {
        int s = m.signum();
        if (s == 0) return ZERO;
        if (s < 0) m = m.negate();
        int z = m.getLowestSetBit();
        if (z > 0) { m = m.shiftRight(z); e += z; }
        int bits = m.bitLength();
        int n = (bits + 29) / 30;
        Value[] el = new Value[n + 2];
        el[0] = IntValue.gen(s);
        el[1] = IntValue.gen(e);
        if (bits <= 62) {
            long l = m.longValue();
            for (int k = 0; k < n; ++k) { el[2 + k] = IntValue.gen((int) (l & 0x3fffffffL)); l >>>= 30; }
        } else {
            for (int k = 0; k < n; ++k) { el[2 + k] = IntValue.gen(m.and(MASK).intValue()); m = m.shiftRight(30); }
        }
        return new TupleValue(el);
    }

    private static Value add(N x, N y) {
        if (x.m.signum() == 0) return put(y.m, y.e);
        if (y.m.signum() == 0) return put(x.m, x.e);
        if (x.e >= y.e) return put(x.m.shiftLeft(x.e - y.e).add(y.m), y.e);
        return put(y.m.shiftLeft(y.e - x.e).add(x.m), x.e);
    }

    private static int cmp(N x, N y) {
        int sx = x.m.signum(), sy = y.m.signum();
        if (sx != sy) return sx < sy ? -1 : 1;
        if (sx == 0) return 0;
        long lx = (long) x.m.bitLength() + x.e, ly = (long) y.m.bitLength() + y.e;
        if (lx != ly) return (lx < ly ? -1 : 1) * sx;
        if (x.e >= y.e) return x.m.shiftLeft(x.e - y.e).compareTo(y.m);
        return x.m.compareTo(y.m.shiftLeft(y.e - x.e));
    }

    public static Value DAdd(Value a, Value b) { return add(get(a), get(b)); }
    public static Value DSub(Value a, Value b) { N y = get(b); return add(get(a), new N(y.m.negate(), y.e)); }
    public static Value DMul(Value a, Value b) {
        N x = get(a), y = get(b);
        return put(x.m.multiply(y.m), x.e + y.e);
    }
    public static Value DNeg(Value a) { N x = get(a); return put(x.m.negate(), x.e); }
    public static Value DAbs(Value a) { N x = get(a); return put(x.m.abs(), x.e); }
    public static Value DCmp(Value a, Value b) { return IntValue.gen(cmp(get(a), get(b))); }
    public static Value DLeq(Value a, Value b) { return cmp(get(a), get(b)) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value DLt(Value a, Value b) { return cmp(get(a), get(b)) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value DInt(Value n) { return put(BigInteger.valueOf(i(n)), 0); }
    public static Value DScale(Value a, Value k) { N x = get(a); return x.m.signum() == 0 ? ZERO : put(x.m, x.e + i(k)); }

    // the p most significant bits, rounded toward zero
    public static Value DTrunc(Value a, Value p) {
        N x = get(a);
        int drop = x.m.bitLength() - i(p);
        if (drop <= 0) return put(x.m, x.e);
        BigInteger m = x.m.abs().shiftRight(drop);
        return put(x.m.signum() < 0 ? m.negate() : m, x.e + drop);
    }
    // floor(log2 |a|) + 1 ; 0 for zero is not meaningful and is an error
    public static Value DMsb(Value a) {
        N x = get(a);
        if (x.m.signum() == 0) throw new RuntimeException("Dyadic: DMsb(0)");
        return IntValue.gen(x.m.abs().bitLength() + x.e);
    }
    // quotient truncated toward zero at p significant bits or a little more
    public static Value DDiv(Value a, Value b, Value p) {
        N x = get(a), y = get(b);
        if (y.m.signum() == 0) throw new RuntimeException("Dyadic: division by zero");
        if (x.m.signum() == 0) return ZERO;
        int sh = Math.max(0, i(p) + 2 - (x.m.bitLength() - y.m.bitLength()));
        return put(x.m.shiftLeft(sh).divide(y.m), x.e - y.e - sh);
    }
    // square root rounded down at p significant bits or a little more
    public static Value DSqrt(Value a, Value p) {
        N x = get(a);
        if (x.m.signum() < 0) throw new RuntimeException("Dyadic: square root of a negative number");
        if (x.m.signum() == 0) return ZERO;
        int sh = Math.max(0, 2 * i(p) + 4 - x.m.bitLength());
        if (((x.e - sh) & 1) != 0) ++sh;
        return put(x.m.shiftLeft(sh).sqrt(), (x.e - sh) / 2);
    }
    // floor as a TLA+ integer; error outside the 32-bit range
    public static Value DFloor(Value a) {
        N x = get(a);
        BigInteger f = x.e >= 0 ? x.m.shiftLeft(x.e) : x.m.shiftRight(-x.e);
        return IntValue.gen(f.intValueExact());
    }
    // SUM over the sequence of pairs <<x, y>> of x*y
    public static Value DDot(Value seq) {
        Value[] el = ((TupleValue) seq.toTuple()).elems;
        BigInteger m = BigInteger.ZERO; int e = 0; boolean any = false;
        for (Value v : el) {
            Value[] pr = ((TupleValue) v.toTuple()).elems;
            N x = get(pr[0]); if (x.m.signum() == 0) continue;
            N y = get(pr[1]); if (y.m.signum() == 0) continue;
            BigInteger q = x.m.multiply(y.m); int qe = x.e + y.e;
            if (!any) { m = q; e = qe; any = true; }
            else if (qe >= e) m = m.add(q.shiftLeft(qe - e));
            else { m = m.shiftLeft(e - qe).add(q); e = qe; }
        }
        return put(m, any ? e : 0);
    }
    // SUM of |x*y|
    public static Value DDotAbs(Value seq) {
        Value[] el = ((TupleValue) seq.toTuple()).elems;
        BigInteger m = BigInteger.ZERO; int e = 0; boolean any = false;
        for (Value v : el) {
            Value[] pr = ((TupleValue) v.toTuple()).elems;
            N x = get(pr[0]); if (x.m.signum() == 0) continue;
            N y = get(pr[1]); if (y.m.signum() == 0) continue;
            BigInteger q = x.m.multiply(y.m).abs(); int qe = x.e + y.e;
            if (!any) { m = q; e = qe; any = true; }
            else if (qe >= e) m = m.add(q.shiftLeft(qe - e));
            else { m = m.shiftLeft(e - qe).add(q); e = qe; }
        }
        return put(m, any ? e : 0);
    }

    private static volatile Object tabKey1, tabKey2;
    private static volatile int[][][] tabs;
    private static int[][] table(Value v) {
        Value[] rows = ((TupleValue) v.toTuple()).elems;
        int[][] t = new int[rows.length][];
        for (int r = 0; r < rows.length; ++r) {
            Value[] c = ((TupleValue) rows[r].toTuple()).elems;
            t[r] = new int[c.length];
            for (int k = 0; k < c.length; ++k) t[r][k] = i(c[k]);
        }
        return t;
    }
    // component k: the p leading bits of SUM_i sig[k][i] * a[i] * b[par[k][i]]
    public static Value DBilin(Value a, Value b, Value sig, Value par, Value p) {
        int[][][] t;
        synchronized (Dyadic.class) {
            if (tabKey1 != sig || tabKey2 != par) { tabs = new int[][][] { table(sig), table(par) }; tabKey1 = sig; tabKey2 = par; }
            t = tabs;
        }
        int[][] sg = t[0], pr = t[1];
        Value[] ea = ((TupleValue) a.toTuple()).elems, eb = ((TupleValue) b.toTuple()).elems;
        N[] x = new N[ea.length], y = new N[eb.length];
        for (int k = 0; k < x.length; ++k) x[k] = get(ea[k]);
        for (int k = 0; k < y.length; ++k) y[k] = get(eb[k]);
        Value[] out = new Value[sg.length];
        int w = i(p);
        for (int k = 0; k < out.length; ++k) {
            BigInteger m = BigInteger.ZERO; int e = 0; boolean any = false;
            for (int j = 0; j < x.length; ++j) {
                N u = x[j], v = y[pr[k][j] - 1];
                if (u.m.signum() == 0 || v.m.signum() == 0) continue;
                BigInteger q = u.m.multiply(v.m); int qe = u.e + v.e;
                if (sg[k][j] < 0) q = q.negate();
                if (!any) { m = q; e = qe; any = true; }
                else if (qe >= e) m = m.add(q.shiftLeft(qe - e));
                else { m = m.shiftLeft(e - qe).add(q); e = qe; }
            }
            int drop = m.bitLength() - w;
            if (drop > 0) { BigInteger h = m.abs().shiftRight(drop); m = m.signum() < 0 ? h.negate() : h; e += drop; }
            out[k] = put(m, e);
        }
        return new TupleValue(out);
    }
}
