import java.math.BigDecimal;
import java.math.MathContext;
import tlc2.value.*;
import tlc2.value.impl.*;
import util.Assert;

/** A real number (36 significant digits) or an IEEE special, as a TLC value. */
public final class RealValue extends Value {
    public static final MathContext MC = new MathContext(36);
    public static final int FIN = 0, NAN = 1, INF = 2, NINF = 3;
    public final BigDecimal v;   // canonical (trailing zeros stripped), null for specials
    public final int k;
    public static final RealValue ZERO = new RealValue(BigDecimal.ZERO, FIN), ONE = new RealValue(BigDecimal.ONE, FIN);
    public static final RealValue VNAN = new RealValue(null, NAN), VINF = new RealValue(null, INF), VNINF = new RealValue(null, NINF);

    private RealValue(BigDecimal v, int k) { this.v = v; this.k = k; }
    public static RealValue of(BigDecimal b) {
        if (b.signum() == 0) return ZERO;
        if (b.precision() > 36) b = b.round(MC);
        return new RealValue(b.stripTrailingZeros(), FIN);
    }
    public static RealValue of(double d) {
        if (Double.isNaN(d)) return VNAN;
        if (Double.isInfinite(d)) return d > 0 ? VINF : VNINF;
        return of(new BigDecimal(d));
    }
    public static RealValue parse(String s) {
        switch (s) {
            case "nan": case "-nan": return VNAN;
            case "inf": return VINF;
            case "-inf": return VNINF;
            case "0": return ZERO;
            default:
        }
        if (s.indexOf('x') >= 0 || s.indexOf('X') >= 0) return of(Double.parseDouble(s));
        return of(new BigDecimal(s));
    }
    public static RealValue from(Object o) {
        if (o instanceof RealValue) return (RealValue) o;
        if (o instanceof StringValue) return parse(((StringValue) o).val.toString());
        if (o instanceof IntValue) return of(new BigDecimal(((IntValue) o).val));
        Assert.fail("Expected a real number, got " + o);
        return null;
    }
    public String canon() {
        switch (k) { case NAN: return "nan"; case INF: return "inf"; case NINF: return "-inf"; default: return v.toString(); }
    }
    public double dbl() {
        switch (k) { case NAN: return Double.NaN; case INF: return Double.POSITIVE_INFINITY; case NINF: return Double.NEGATIVE_INFINITY; default: return v.doubleValue(); }
    }
    @Override public byte getKind() { return REALVALUE; }
    @Override public String getKindString() { return "a real number"; }
    @Override public int compareTo(Object o) {
        RealValue r = from(o);
        if (k != r.k) return k < r.k ? -1 : 1;
        return k == FIN ? v.compareTo(r.v) : 0;
    }
    @Override public boolean equals(Object o) {
        if (!(o instanceof RealValue) && !(o instanceof StringValue) && !(o instanceof IntValue)) return false;
        RealValue r = from(o);
        return k == r.k && (k != FIN || v.compareTo(r.v) == 0);
    }
    @Override public boolean member(Value elem) { Assert.fail("\\in applied to a real number"); return false; }
    @Override public boolean isFinite() { Assert.fail("IsFiniteSet applied to a real number"); return false; }
    @Override public Value takeExcept(ValueExcept ex) { if (ex.idx < ex.path.length) Assert.fail("EXCEPT applied to a real number"); return ex.value; }
    @Override public Value takeExcept(ValueExcept[] exs) { Assert.fail("EXCEPT applied to a real number"); return null; }
    @Override public int size() { Assert.fail("Cardinality applied to a real number"); return 0; }
    @Override public boolean isNormalized() { return true; }
    @Override public Value normalize() { return this; }
    @Override public boolean isDefined() { return true; }
    @Override public IValue deepCopy() { return this; }
    @Override public void write(IValueOutputStream vos) throws java.io.IOException { new StringValue("r:" + canon()).write(vos); }
    @Override public long fingerPrint(long fp) {
        String s = canon();
        fp = tlc2.util.FP64.Extend(fp, REALVALUE);
        fp = tlc2.util.FP64.Extend(fp, s.length());
        return tlc2.util.FP64.Extend(fp, s);
    }
    @Override public IValue permute(IMVPerm perm) { return this; }
    @Override public StringBuffer toString(StringBuffer sb, int offset, boolean swallow) { return sb.append('"').append(canon()).append('"'); }
}
