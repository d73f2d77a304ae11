import java.math.BigDecimal;
import java.math.MathContext;
import java.math.RoundingMode;
import tlc2.value.impl.*;
import util.Assert;

/** Evaluation of the operators of module RealNum. */
public final class RealNum {
    private static final MathContext MC = RealValue.MC, WC = new MathContext(46);
    private static RealValue r(Value v) { return RealValue.from(v); }
    private static BoolValue b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
    private static Value[] seq(Value v) {
        if (v instanceof TupleValue) return ((TupleValue) v).elems;
        Value t = v.toTuple();
        if (t == null) Assert.fail("Expected a sequence of reals, got " + v);
        return ((TupleValue) t).elems;
    }

    public static Value RInt(Value n) { return RealValue.of(new BigDecimal(((IntValue) n).val)); }
    public static Value RLit(Value s) { return r(s); }
    public static Value RVec(Value s) {
        String str = ((StringValue) s).val.toString();
        if (str.isEmpty()) return new TupleValue(new Value[0]);
        String[] p = str.split(" ");
        Value[] out = new Value[p.length];
        for (int i = 0; i < p.length; i++) out[i] = RealValue.parse(p[i]);
        return new TupleValue(out);
    }
    public static Value RStr(Value x) { return new StringValue(r(x).canon()); }
    public static Value RText(Value x) {
        RealValue y = r(x);
        String t;
        if (y.k != 0) t = y.canon();
        else if (y.v.signum() == 0) t = "0";
        else {
            BigDecimal d = y.v.round(new MathContext(6, RoundingMode.HALF_EVEN)).stripTrailingZeros();
            int e = d.precision() - d.scale() - 1;
            if (e < -4 || e >= 6) {
                String u = d.unscaledValue().abs().toString();
                t = (d.signum() < 0 ? "-" : "") + u.charAt(0) + (u.length() > 1 ? "." + u.substring(1) : "") + "e" + (e < 0 ? "-" : "+") + (Math.abs(e) < 10 ? "0" : "") + Math.abs(e);
            } else t = d.toPlainString();
        }
        return new StringValue(t);
    }
    public static Value RIsNum(Value x) { return b(r(x).k == RealValue.FIN); }
    public static Value RIsNaN(Value x) { return b(r(x).k == RealValue.NAN); }

    static RealValue add(RealValue a, RealValue c) {
        if (a.k == 0 && c.k == 0) return RealValue.of(a.v.add(c.v, MC));
        return RealValue.of(a.dbl() + c.dbl());
    }
    static RealValue neg(RealValue a) { return a.k == 0 ? RealValue.of(a.v.negate()) : RealValue.of(-a.dbl()); }
    static RealValue mul(RealValue a, RealValue c) {
        if (a.k == 0 && c.k == 0) return RealValue.of(a.v.multiply(c.v, MC));
        return RealValue.of(sgn(a) * sgn(c));
    }
    /** sign as a double, infinities kept, so that products of specials come out right. */
    private static double sgn(RealValue a) { return a.k == 0 ? a.v.signum() : a.dbl(); }
    static RealValue div(RealValue a, RealValue c) {
        if (a.k == 0 && c.k == 0) {
            if (c.v.signum() == 0) return a.v.signum() == 0 ? RealValue.VNAN : a.v.signum() > 0 ? RealValue.VINF : RealValue.VNINF;
            return RealValue.of(a.v.divide(c.v, MC));
        }
        if (a.k == 0 && c.k != RealValue.NAN) return RealValue.ZERO;
        return RealValue.of(a.dbl() / (sgn(c) == 0 ? 1 : sgn(c)));
    }
    static int cmp(RealValue a, RealValue c) { // neither NaN
        if (a.k == 0 && c.k == 0) return a.v.compareTo(c.v);
        return Double.compare(a.k == 0 ? 0 : a.dbl(), c.k == 0 ? 0 : c.dbl());
    }
    static boolean nan(RealValue a, RealValue c) { return a.k == RealValue.NAN || c.k == RealValue.NAN; }

    public static Value RAdd(Value a, Value c) { return add(r(a), r(c)); }
    public static Value RSub(Value a, Value c) { return add(r(a), neg(r(c))); }
    public static Value RMul(Value a, Value c) { return mul(r(a), r(c)); }
    public static Value RDiv(Value a, Value c) { return div(r(a), r(c)); }
    public static Value RNeg(Value a) { return neg(r(a)); }
    static RealValue abs(RealValue x) { return x.k == 0 ? (x.v.signum() < 0 ? RealValue.of(x.v.negate()) : x) : RealValue.of(Math.abs(x.dbl())); }
    public static Value RAbs(Value a) { return abs(r(a)); }
    public static Value RLt(Value a, Value c) { RealValue x = r(a), y = r(c); return b(!nan(x, y) && cmp(x, y) < 0); }
    public static Value RLe(Value a, Value c) { RealValue x = r(a), y = r(c); return b(!nan(x, y) && cmp(x, y) <= 0); }
    public static Value RMax(Value a, Value c) { RealValue x = r(a), y = r(c); return nan(x, y) ? RealValue.VNAN : cmp(x, y) < 0 ? y : x; }
    public static Value RMin(Value a, Value c) { RealValue x = r(a), y = r(c); return nan(x, y) ? RealValue.VNAN : cmp(y, x) < 0 ? y : x; }
    public static Value RSqrt(Value a) {
        RealValue x = r(a);
        if (x.k != 0) return x.k == RealValue.INF ? x : RealValue.VNAN;
        if (x.v.signum() < 0) return RealValue.VNAN;
        return RealValue.of(x.v.sqrt(MC));
    }
    private static final BigDecimal HUGE = new BigDecimal(2000000);
    static BigDecimal exp(BigDecimal x) {
        if (x.signum() == 0) return BigDecimal.ONE;
        // reduce: exp(x) = exp(x / 2^n)^(2^n)
        int n = 0;
        double d = Math.abs(x.doubleValue());
        while (d > 0.01) { d /= 2; n++; }
        MathContext mc = new MathContext(46 + n / 3 + 2);
        BigDecimal y = n == 0 ? x : x.divide(new BigDecimal(java.math.BigInteger.ONE.shiftLeft(n)), mc);
        BigDecimal sum = BigDecimal.ONE, term = BigDecimal.ONE;
        for (int i = 1; i < 60; i++) {
            term = term.multiply(y, mc).divide(new BigDecimal(i), mc);
            if (term.signum() == 0) break;
            sum = sum.add(term, mc);
            if (term.precision() - term.scale() < -48) break;
        }
        for (int i = 0; i < n; i++) sum = sum.multiply(sum, mc);
        return sum;
    }
    public static Value RExp(Value a) {
        RealValue x = r(a);
        if (x.k == RealValue.NAN) return x;
        if (x.k == RealValue.INF) return x;
        if (x.k == RealValue.NINF) return RealValue.ZERO;
        if (x.v.compareTo(HUGE) > 0) return RealValue.VINF;
        if (x.v.compareTo(HUGE.negate()) < 0) return RealValue.ZERO;
        return RealValue.of(exp(x.v));
    }
    private static BigDecimal LN10;
    static BigDecimal lnSmall(BigDecimal m) { // 0.1 <= m < 10
        BigDecimal y = new BigDecimal(Math.log(m.doubleValue()));
        for (int i = 0; i < 3; i++) { // Halley: y += 2 (m - e^y)/(m + e^y), cubic convergence
            BigDecimal e = exp(y);
            y = y.add(m.subtract(e, WC).multiply(new BigDecimal(2)).divide(m.add(e, WC), WC), WC);
        }
        return y;
    }
    static BigDecimal ln(BigDecimal x) {
        int e = x.precision() - x.scale() - 1;
        BigDecimal m = x.movePointLeft(e);
        if (e == -1 || e == 0) return lnSmall(x);
        if (LN10 == null) LN10 = lnSmall(BigDecimal.TEN.divide(new BigDecimal(4), WC)).add(lnSmall(new BigDecimal(4)), WC);
        return lnSmall(m).add(LN10.multiply(new BigDecimal(e), WC), WC);
    }
    public static Value RLn(Value a) {
        RealValue x = r(a);
        if (x.k != 0) return x.k == RealValue.INF ? x : RealValue.VNAN;
        if (x.v.signum() < 0) return RealValue.VNAN;
        if (x.v.signum() == 0) return RealValue.VNINF;
        return RealValue.of(ln(x.v));
    }
    public static Value RSum(Value q) { RealValue s = RealValue.ZERO; for (Value x : seq(q)) s = add(s, r(x)); return s; }
    public static Value RSumAbs(Value q) { RealValue s = RealValue.ZERO; for (Value x : seq(q)) s = add(s, abs(r(x))); return s; }
    public static Value RDot(Value p, Value q) {
        Value[] a = seq(p), c = seq(q);
        if (a.length != c.length) Assert.fail("RDot: sequences of lengths " + a.length + " and " + c.length);
        RealValue s = RealValue.ZERO;
        for (int i = 0; i < a.length; i++) s = add(s, mul(r(a[i]), r(c[i])));
        return s;
    }
    public static Value RDotAbs(Value p, Value q) {
        Value[] a = seq(p), c = seq(q);
        if (a.length != c.length) Assert.fail("RDotAbs: sequences of lengths " + a.length + " and " + c.length);
        RealValue s = RealValue.ZERO;
        for (int i = 0; i < a.length; i++) s = add(s, abs(mul(r(a[i]), r(c[i]))));
        return s;
    }
    public static Value RRound(Value ty, Value x) {
        RealValue y = r(x);
        if (y.k != 0) return y;
        if (((StringValue) ty).val.toString().equals("f")) return RealValue.of((double) y.v.floatValue());
        return RealValue.of(y.v.doubleValue());
    }
}
