// Evaluation of RealArith.tla: 40-digit decimal arithmetic, IEEE-like specials.
import java.math.BigDecimal;
import java.math.MathContext;
import java.math.RoundingMode;

import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.UserObj;
import tlc2.value.impl.UserValue;
import tlc2.value.impl.Value;

public class RealArith {
    static final MathContext MC = new MathContext(40, RoundingMode.HALF_EVEN);

    static final class Real extends UserObj {
        final BigDecimal v; // null when not finite
        final double d; // used when v is null

        Real(BigDecimal v) { this.v = v; this.d = 0; }
        Real(double d) {
            if (Double.isNaN(d) || Double.isInfinite(d)) { this.v = null; this.d = d; }
            else { this.v = new BigDecimal(d); this.d = 0; }
        }
        boolean fin() { return v != null; }
        double dbl() { return v != null ? v.doubleValue() : d; }
        @Override public int compareTo(Value o) {
            Real b = ((Real) ((UserValue) o).userObj);
            if (v != null && b.v != null) return v.compareTo(b.v);
            return Double.compare(dbl(), b.dbl());
        }
        @Override public boolean member(Value e) { return false; }
        @Override public boolean isFinite() { return true; }
        @Override public StringBuffer toString(StringBuffer sb, int offset, boolean swallow) { return sb.append("\"").append(text()).append("\""); }
        String text() { return v == null ? (Double.isNaN(d) ? "nan" : d > 0 ? "inf" : "-inf") : v.round(new MathContext(20)).toString(); }
    }

    static Real r(Value x) {
        if (x instanceof UserValue) return (Real) ((UserValue) x).userObj;
        if (x instanceof IntValue) return new Real(new BigDecimal(((IntValue) x).val));
        if (x instanceof StringValue) {
            String s = ((StringValue) x).val.toString();
            switch (s) {
                case "nan": case "-nan": return new Real(Double.NaN);
                case "inf": return new Real(Double.POSITIVE_INFINITY);
                case "-inf": return new Real(Double.NEGATIVE_INFINITY);
                default: return new Real(new BigDecimal(s, MC));
            }
        }
        Object y = x;
        throw new RuntimeException("RealArith: not a real: " + y);
    }
    static Value w(Real x) { return new UserValue(x); }
    static Value w(BigDecimal x) { return new UserValue(new Real(x)); }
    static Value w(double x) { return new UserValue(new Real(x)); }
    static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

    public static Value R(Value x) { return w(r(x)); }
    public static Value RAdd(Value x, Value y) { Real a = r(x), c = r(y); return a.fin() && c.fin() ? w(a.v.add(c.v, MC)) : w(a.dbl() + c.dbl()); }
    public static Value RSub(Value x, Value y) { Real a = r(x), c = r(y); return a.fin() && c.fin() ? w(a.v.subtract(c.v, MC)) : w(a.dbl() - c.dbl()); }
    public static Value RMul(Value x, Value y) { Real a = r(x), c = r(y); return a.fin() && c.fin() ? w(a.v.multiply(c.v, MC)) : w(a.dbl() * c.dbl()); }
    public static Value RDiv(Value x, Value y) {
        Real a = r(x), c = r(y);
        return a.fin() && c.fin() && c.v.signum() != 0 ? w(a.v.divide(c.v, MC)) : w(a.dbl() / c.dbl());
    }
    public static Value RNeg(Value x) { Real a = r(x); return a.fin() ? w(a.v.negate()) : w(-a.d); }
    public static Value RAbs(Value x) { Real a = r(x); return a.fin() ? w(a.v.abs()) : w(Math.abs(a.d)); }
    public static Value RSqrt(Value x) { Real a = r(x); return a.fin() && a.v.signum() >= 0 ? w(a.v.sqrt(MC)) : w(Math.sqrt(a.dbl())); }
    public static Value RPow(Value x, Value y) { return w(Math.pow(r(x).dbl(), r(y).dbl())); }
    static BigDecimal exp(BigDecimal x) {
        // exp(x) = exp(x / 2^40)^(2^40), the inner one by its series
        java.math.MathContext m = new java.math.MathContext(80);
        BigDecimal y = x.divide(new BigDecimal(2).pow(40), m), t = BigDecimal.ONE, s = BigDecimal.ONE;
        for (int n = 1; n < 12; ++n) { t = t.multiply(y, m).divide(new BigDecimal(n), m); s = s.add(t, m); }
        for (int n = 0; n < 40; ++n) s = s.multiply(s, m);
        return s.round(MC);
    }
    public static Value RExp(Value x) { Real a = r(x); return a.fin() && Math.abs(a.dbl()) < 10000 ? w(exp(a.v)) : w(StrictMath.exp(a.dbl())); }
    public static Value RLog(Value x) { return w(StrictMath.log(r(x).dbl())); }
    public static Value RSin(Value x) { return w(StrictMath.sin(r(x).dbl())); }
    public static Value RCos(Value x) { return w(StrictMath.cos(r(x).dbl())); }
    static final BigDecimal PI = new BigDecimal("3.14159265358979323846264338327950288419716939937510");
    public static Value RPi() { return w(PI.round(MC)); }
    static int cmp(Real a, Real c) { return a.fin() && c.fin() ? a.v.compareTo(c.v) : Double.compare(a.dbl(), c.dbl()); }
    static boolean nan(Real a) { return !a.fin() && Double.isNaN(a.d); }
    public static Value RMin(Value x, Value y) { Real a = r(x), c = r(y); return w(cmp(c, a) < 0 ? c : a); }
    public static Value RMax(Value x, Value y) { Real a = r(x), c = r(y); return w(cmp(a, c) < 0 ? c : a); }
    public static Value RLt(Value x, Value y) { Real a = r(x), c = r(y); return b(!nan(a) && !nan(c) && cmp(a, c) < 0); }
    public static Value RLe(Value x, Value y) { Real a = r(x), c = r(y); return b(!nan(a) && !nan(c) && cmp(a, c) <= 0); }
    public static Value REq(Value x, Value y) { Real a = r(x), c = r(y); return b(!nan(a) && !nan(c) && cmp(a, c) == 0); }
    public static Value RIsNaN(Value x) { return b(nan(r(x))); }
    public static Value RIsFinite(Value x) { return b(r(x).fin()); }
    public static Value RClose(Value x, Value y, Value rt, Value at) {
        Real a = r(x), c = r(y);
        if (!a.fin() || !c.fin()) return b(!a.fin() && !c.fin() && ((nan(a) && nan(c)) || a.d == c.d));
        BigDecimal m = a.v.abs().max(c.v.abs());
        return b(a.v.subtract(c.v).abs().compareTo(r(at).v.add(r(rt).v.multiply(m, MC), MC)) <= 0);
    }
    public static Value RSumSeq(Value s) {
        TupleValue t = (TupleValue) s.toTuple();
        Real acc = new Real(BigDecimal.ZERO);
        Value res = w(acc);
        for (Value e : t.elems) res = RAdd(res, e);
        return res;
    }
    public static Value RPow10(Value n) { return w(BigDecimal.ONE.scaleByPowerOfTen(((IntValue) n).val)); }
    public static Value RText(Value x) { return new StringValue(r(x).text()); }
}
