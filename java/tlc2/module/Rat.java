package tlc2.module;

import java.math.BigInteger;
import tlc2.value.ValueConstants;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** TLC overrides of the operators that Rat.tla defines over Reals. */
public class Rat implements ValueConstants {
    private static RatValue r(Value v) { return RatValue.from(v); }
    private static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
    private static TupleValue tup(Value v) {
        Value t = v.toTuple();
        if (t == null) throw new RuntimeException("Rat: not a tuple: " + v);
        return (TupleValue) t;
    }
    private static Value c(RatValue a, RatValue b) { return new TupleValue(new Value[] {a, b}); }

    public static Value R(Value s) { return r(s); }
    /** nested tuples of literals to nested tuples of numbers */
    public static Value RArr(Value v) {
        if (v instanceof StringValue || v instanceof IntValue || v instanceof RatValue) return r(v);
        TupleValue t = tup(v);
        Value[] e = new Value[t.elems.length];
        for (int i = 0; i < e.length; i++) e[i] = RArr(t.elems[i]);
        return new TupleValue(e);
    }
    public static Value RAdd(Value a, Value b) { return r(a).add(r(b)); }
    public static Value RSub(Value a, Value b) { return r(a).sub(r(b)); }
    public static Value RMul(Value a, Value b) { return r(a).mul(r(b)); }
    public static Value RDiv(Value a, Value b) { return r(a).div(r(b)); }
    public static Value RNeg(Value a) { return r(a).neg(); }
    public static Value RAbs(Value a) { RatValue x = r(a); return x.n.signum() < 0 ? x.neg() : x; }
    public static Value REq(Value a, Value b) { return b(r(a).cmp(r(b)) == 0); }
    public static Value RLe(Value a, Value b) { return b(r(a).cmp(r(b)) <= 0); }
    public static Value RLt(Value a, Value b) { return b(r(a).cmp(r(b)) < 0); }
    public static Value RMax(Value a, Value b) { RatValue x = r(a), y = r(b); return x.cmp(y) >= 0 ? x : y; }
    public static Value RMin(Value a, Value b) { RatValue x = r(a), y = r(b); return x.cmp(y) <= 0 ? x : y; }
    public static Value RFloor(Value a) {
        RatValue x = r(a);
        BigInteger[] q = x.n.divideAndRemainder(x.d);
        BigInteger f = q[1].signum() < 0 ? q[0].subtract(BigInteger.ONE) : q[0];
        return IntValue.gen(f.intValueExact());
    }
    public static Value RPow(Value a, Value k) {
        RatValue x = r(a);
        int e = ((IntValue) k).val;
        if (e < 0) return RatValue.of(1).div((RatValue) RPow(x, IntValue.gen(-e)));
        return RatValue.of(x.n.pow(e), x.d.pow(e));
    }
    public static Value RSum(Value s) {
        TupleValue t = tup(s);
        RatValue a = RatValue.RZERO;
        for (Value v : t.elems) a = a.add(r(v));
        return a;
    }
    public static Value RDot(Value p, Value q) {
        TupleValue s = tup(p), t = tup(q);
        if (s.elems.length != t.elems.length) throw new RuntimeException("Rat: RDot of different lengths");
        RatValue a = RatValue.RZERO;
        for (int i = 0; i < s.elems.length; i++) a = a.add(r(s.elems[i]).mul(r(t.elems[i])));
        return a;
    }
    public static Value RMaxAbs(Value s) {
        TupleValue t = tup(s);
        RatValue a = RatValue.RZERO;
        for (Value v : t.elems) { RatValue x = (RatValue) RAbs(v); if (x.cmp(a) > 0) a = x; }
        return a;
    }
    // complex numbers <<re, im>>
    public static Value CAdd(Value a, Value b) {
        TupleValue x = tup(a), y = tup(b);
        return c(r(x.elems[0]).add(r(y.elems[0])), r(x.elems[1]).add(r(y.elems[1])));
    }
    public static Value CSub(Value a, Value b) {
        TupleValue x = tup(a), y = tup(b);
        return c(r(x.elems[0]).sub(r(y.elems[0])), r(x.elems[1]).sub(r(y.elems[1])));
    }
    public static Value CMul(Value a, Value b) {
        TupleValue x = tup(a), y = tup(b);
        RatValue xr = r(x.elems[0]), xi = r(x.elems[1]), yr = r(y.elems[0]), yi = r(y.elems[1]);
        return c(xr.mul(yr).sub(xi.mul(yi)), xr.mul(yi).add(xi.mul(yr)));
    }
    public static Value CScale(Value s, Value a) {
        TupleValue x = tup(a);
        RatValue k = r(s);
        return c(k.mul(r(x.elems[0])), k.mul(r(x.elems[1])));
    }
    public static Value CSum(Value s) {
        TupleValue t = tup(s);
        RatValue re = RatValue.RZERO, im = RatValue.RZERO;
        for (Value v : t.elems) { TupleValue x = tup(v); re = re.add(r(x.elems[0])); im = im.add(r(x.elems[1])); }
        return c(re, im);
    }
    /** |a - b| <= tol component by component */
    public static Value CClose(Value a, Value b, Value tol) {
        TupleValue x = tup(a), y = tup(b);
        RatValue e = r(tol);
        for (int i = 0; i < 2; i++) {
            RatValue q = r(x.elems[i]).sub(r(y.elems[i]));
            if (q.n.signum() < 0) q = q.neg();
            if (q.cmp(e) > 0) return BoolValue.ValFalse;
        }
        return BoolValue.ValTrue;
    }
    /** nearest multiple of 2^-k */
    public static Value RRound(Value a, Value k) {
        RatValue x = r(a);
        int b = ((IntValue) k).val;
        if (x.d.bitLength() <= b + 1) return x;
        BigInteger[] q = x.n.shiftLeft(b + 1).add(x.d).divideAndRemainder(x.d.shiftLeft(1));
        return RatValue.of(q[0], BigInteger.ONE.shiftLeft(b));
    }
    /** largest component of a sequence of complex numbers */
    public static Value CMaxAbs(Value s) {
        TupleValue t = tup(s);
        RatValue a = RatValue.RZERO;
        for (Value v : t.elems) for (Value w : tup(v).elems) { RatValue x = (RatValue) RAbs(w); if (x.cmp(a) > 0) a = x; }
        return a;
    }
    /** square root to k binary places (rounded down) */
    public static Value RSqrt(Value a, Value k) {
        RatValue x = r(a);
        int b = ((IntValue) k).val;
        return RatValue.of(x.n.shiftLeft(2 * b).divide(x.d).sqrt(), BigInteger.ONE.shiftLeft(b));
    }
    private static boolean leaf(Value v) { return v instanceof StringValue || v instanceof IntValue || v instanceof RatValue; }
    private static RatValue dist(Value a, Value b) {
        if (leaf(a)) return (RatValue) RAbs(r(a).sub(r(b)));
        TupleValue x = tup(a), y = tup(b);
        RatValue m = RatValue.RZERO;
        for (int i = 0; i < x.elems.length; i++) { RatValue d = dist(x.elems[i], y.elems[i]); if (d.cmp(m) > 0) m = d; }
        return m;
    }
    private static boolean shape(Value a, Value b) {
        if (leaf(a) || leaf(b)) return leaf(a) && leaf(b);
        TupleValue x = tup(a), y = tup(b);
        if (x.elems.length != y.elems.length) return false;
        for (int i = 0; i < x.elems.length; i++) if (!shape(x.elems[i], y.elems[i])) return false;
        return true;
    }
    public static Value TShape(Value a, Value b) { return b(shape(a, b)); }
    /** largest difference between corresponding leaves of two equally shaped nested tuples */
    public static Value TDist(Value a, Value b) { return dist(a, b); }
    private static RatValue big(Value a) {
        if (leaf(a)) return (RatValue) RAbs(a);
        RatValue m = RatValue.RZERO;
        for (Value v : tup(a).elems) { RatValue d = big(v); if (d.cmp(m) > 0) m = d; }
        return m;
    }
    public static Value TMax(Value a) { return big(a); }
    private static Value lin(RatValue[] c, Value[] x) {
        if (leaf(x[0])) {
            RatValue s = RatValue.RZERO;
            for (int i = 0; i < c.length; i++) if (c[i].n.signum() != 0) s = s.add(c[i].mul(r(x[i])));
            return s;
        }
        int n = tup(x[0]).elems.length;
        Value[] e = new Value[n];
        Value[] y = new Value[x.length];
        for (int j = 0; j < n; j++) {
            for (int i = 0; i < x.length; i++) {
                TupleValue t = tup(x[i]);
                if (t.elems.length != n) throw new RuntimeException("Rat: TLin of different shapes");
                y[i] = t.elems[j];
            }
            e[j] = lin(c, y);
        }
        return new TupleValue(e);
    }
    /** sum_i c[i] x[i], leaf by leaf */
    public static Value TLin(Value c, Value x) {
        Value[] cs = tup(c).elems;
        RatValue[] k = new RatValue[cs.length];
        for (int i = 0; i < k.length; i++) k[i] = r(cs[i]);
        return lin(k, tup(x).elems);
    }
    public static Value TRound(Value a, Value k) {
        if (leaf(a)) return RRound(a, k);
        TupleValue t = tup(a);
        Value[] e = new Value[t.elems.length];
        for (int i = 0; i < e.length; i++) e[i] = TRound(t.elems[i], k);
        return new TupleValue(e);
    }
    private static final java.math.MathContext MC = new java.math.MathContext(140);
    private static void flat(Value v, java.util.List<java.math.BigDecimal> out) {
        if (leaf(v)) { RatValue x = r(v); out.add(new java.math.BigDecimal(x.n).divide(new java.math.BigDecimal(x.d), MC)); return; }
        for (Value e : tup(v).elems) flat(e, out);
    }
    private static Value build(Value like, java.math.BigDecimal[] v, int[] p, int k) {
        if (leaf(like)) {
            BigInteger n = v[p[0]++].multiply(new java.math.BigDecimal(BigInteger.ONE.shiftLeft(k)), MC).setScale(0, java.math.RoundingMode.HALF_EVEN).toBigInteger();
            return RatValue.of(n, BigInteger.ONE.shiftLeft(k));
        }
        TupleValue t = tup(like);
        Value[] e = new Value[t.elems.length];
        for (int i = 0; i < e.length; i++) e[i] = build(t.elems[i], v, p, k);
        return new TupleValue(e);
    }
    /** Gaussian elimination with pivoting, 140 digits */
    public static Value RSolve(Value A, Value B, Value k) {
        TupleValue a = tup(A), b = tup(B);
        int n = a.elems.length;
        java.math.BigDecimal[][] m = new java.math.BigDecimal[n][], y = new java.math.BigDecimal[n][];
        for (int i = 0; i < n; i++) {
            java.util.ArrayList<java.math.BigDecimal> l = new java.util.ArrayList<>();
            flat(a.elems[i], l); m[i] = l.toArray(new java.math.BigDecimal[0]);
            l = new java.util.ArrayList<>();
            flat(b.elems[i], l); y[i] = l.toArray(new java.math.BigDecimal[0]);
        }
        for (int c = 0; c < n; c++) {
            int p = c;
            for (int i = c + 1; i < n; i++) if (m[i][c].abs().compareTo(m[p][c].abs()) > 0) p = i;
            if (m[p][c].signum() == 0) throw new RuntimeException("RSolve: singular matrix");
            java.math.BigDecimal[] t = m[p]; m[p] = m[c]; m[c] = t; t = y[p]; y[p] = y[c]; y[c] = t;
            for (int i = c + 1; i < n; i++) {
                if (m[i][c].signum() == 0) continue;
                java.math.BigDecimal f = m[i][c].divide(m[c][c], MC);
                for (int j = c + 1; j < n; j++) if (m[c][j].signum() != 0) m[i][j] = m[i][j].subtract(f.multiply(m[c][j], MC), MC);
                m[i][c] = java.math.BigDecimal.ZERO;
                for (int j = 0; j < y[i].length; j++) y[i][j] = y[i][j].subtract(f.multiply(y[c][j], MC), MC);
            }
        }
        for (int c = n - 1; c >= 0; c--) {
            for (int j = 0; j < y[c].length; j++) {
                java.math.BigDecimal s = y[c][j];
                for (int l = c + 1; l < n; l++) if (m[c][l].signum() != 0) s = s.subtract(m[c][l].multiply(y[l][j], MC), MC);
                y[c][j] = s.divide(m[c][c], MC);
            }
        }
        Value[] e = new Value[n];
        for (int i = 0; i < n; i++) e[i] = build(b.elems[i], y[i], new int[1], ((IntValue) k).val);
        return new TupleValue(e);
    }
    public static Value RStr(Value a) { return new StringValue(Double.toString(r(a).dbl())); }
}
