package tlc2.module;

import java.io.IOException;
import java.math.BigDecimal;
import java.math.BigInteger;
import tlc2.tool.FingerprintException;
import tlc2.util.FP64;
import tlc2.value.IMVPerm;
import tlc2.value.IValue;
import tlc2.value.IValueOutputStream;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.Value;
import tlc2.value.impl.ValueExcept;

/** An exact rational number, so that TLC can evaluate the operators of Rat.tla. */
public final class RatValue extends Value {
    public final BigInteger n, d;   // lowest terms, d > 0
    static final BigInteger ONE = BigInteger.ONE, ZERO = BigInteger.ZERO;
    public static final RatValue RZERO = new RatValue(ZERO, ONE, false);

    private RatValue(BigInteger n, BigInteger d, boolean x) { this.n = n; this.d = d; }

    /** k when d = 2^k, else -1 */
    private static int pow2(BigInteger d) {
        int k = d.bitLength() - 1;
        return d.getLowestSetBit() == k ? k : -1;
    }
    public static RatValue of(BigInteger n, BigInteger d) {
        if (d.equals(ONE)) return new RatValue(n, d, false);
        int s = d.signum();
        if (s == 0) throw new RuntimeException("Rat: division by zero");
        if (s < 0) { n = n.negate(); d = d.negate(); }
        int k = pow2(d);
        if (k > 0) {                    // dyadic: no need for a gcd
            if (n.signum() == 0) return RZERO;
            int z = Math.min(n.getLowestSetBit(), k);
            return z == 0 ? new RatValue(n, d, false) : new RatValue(n.shiftRight(z), ONE.shiftLeft(k - z), false);
        }
        BigInteger g = n.gcd(d);
        if (!g.equals(ONE)) { n = n.divide(g); d = d.divide(g); }
        return new RatValue(n, d, false);
    }
    public static RatValue of(long i) { return new RatValue(BigInteger.valueOf(i), ONE, false); }

    public static RatValue of(double x) {
        if (Double.isNaN(x) || Double.isInfinite(x)) throw new RuntimeException("Rat: not a finite number " + x);
        BigDecimal b = new BigDecimal(x);
        if (b.scale() <= 0) return new RatValue(b.toBigIntegerExact(), ONE, false);
        long bits = Double.doubleToLongBits(x);
        int e = (int) ((bits >> 52) & 0x7ffL);
        long m = bits & 0xfffffffffffffL;
        if (e == 0) e++; else m |= 1L << 52;
        e -= 1075;
        BigInteger bm = BigInteger.valueOf(bits < 0 ? -m : m);
        if (e >= 0) return new RatValue(bm.shiftLeft(e), ONE, false);
        int tz = Math.min(bm.getLowestSetBit(), -e);
        return new RatValue(bm.shiftRight(tz), ONE.shiftLeft(-e - tz), false);
    }

    public static RatValue parse(String s) {
        s = s.trim();
        if (s.indexOf('x') >= 0) return of(Double.parseDouble(s));
        int i = s.indexOf('/');
        if (i >= 0) return of(new BigInteger(s.substring(0, i)), new BigInteger(s.substring(i + 1)));
        BigDecimal b = new BigDecimal(s);
        if (b.scale() <= 0) return new RatValue(b.toBigIntegerExact(), ONE, false);
        return of(b.unscaledValue(), BigInteger.TEN.pow(b.scale()));
    }

    public static RatValue from(Value v) {
        if (v instanceof RatValue) return (RatValue) v;
        if (v instanceof IntValue) return of(((IntValue) v).val);
        if (v instanceof StringValue) return parse(((StringValue) v).val.toString());
        throw new RuntimeException("Rat: not a number: " + v);
    }

    RatValue add(RatValue o) {
        if (n.signum() == 0) return o;
        if (o.n.signum() == 0) return this;
        if (d.equals(o.d)) return of(n.add(o.n), d);
        int j = pow2(d), k = pow2(o.d);
        if (j >= 0 && k >= 0) return j >= k ? of(n.add(o.n.shiftLeft(j - k)), d) : of(n.shiftLeft(k - j).add(o.n), o.d);
        return of(n.multiply(o.d).add(o.n.multiply(d)), d.multiply(o.d));
    }
    RatValue neg() { return new RatValue(n.negate(), d, false); }
    RatValue sub(RatValue o) { return add(o.neg()); }
    RatValue mul(RatValue o) {
        if (n.signum() == 0 || o.n.signum() == 0) return RZERO;
        int j = pow2(d), k = pow2(o.d);
        if (j >= 0 && k >= 0) return of(n.multiply(o.n), ONE.shiftLeft(j + k));
        return of(n.multiply(o.n), d.multiply(o.d));
    }
    RatValue div(RatValue o) { return of(n.multiply(o.d), d.multiply(o.n)); }
    int cmp(RatValue o) { return n.multiply(o.d).compareTo(o.n.multiply(d)); }
    double dbl() {
        return new BigDecimal(n).divide(new BigDecimal(d), new java.math.MathContext(20)).doubleValue();
    }

    public byte getKind() { return REALVALUE; }
    public int compareTo(Object o) {
        return cmp(from((Value) o));
    }
    public boolean equals(Object o) {
        if (!(o instanceof RatValue || o instanceof IntValue)) return false;
        RatValue r = from((Value) o);
        return n.equals(r.n) && d.equals(r.d);
    }
    public boolean member(Value v) { throw new RuntimeException("Rat: a number is not a set"); }
    public boolean isFinite() { throw new RuntimeException("Rat: a number is not a set"); }
    public Value takeExcept(ValueExcept e) { if (e.idx < e.path.length) throw new RuntimeException("Rat: EXCEPT"); return e.value; }
    public Value takeExcept(ValueExcept[] e) { if (e.length != 0) throw new RuntimeException("Rat: EXCEPT"); return this; }
    public int size() { throw new RuntimeException("Rat: a number is not a set"); }
    public boolean mutates() { return false; }
    public boolean isNormalized() { return true; }
    public Value normalize() { return this; }
    public boolean isDefined() { return true; }
    public IValue deepCopy() { return this; }
    public boolean assignable(Value v) { return v instanceof RatValue && equals(v); }
    public void write(IValueOutputStream vos) throws IOException { new StringValue(n + "/" + d).write(vos); }
    public long fingerPrint(long fp) {
        fp = FP64.Extend(fp, REALVALUE);
        fp = FP64.Extend(fp, n.toString(16));
        return FP64.Extend(fp, d.toString(16));
    }
    public IValue permute(IMVPerm p) { return this; }
    public StringBuffer toString(StringBuffer sb, int off, boolean swallow) {
        if (d.equals(ONE) && n.bitLength() < 54) return sb.append(n);
        if (n.bitLength() < 24 && d.bitLength() < 24) return sb.append(n).append("/").append(d);
        return sb.append("~").append(dbl());
    }
}
