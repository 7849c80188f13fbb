import tlc2.value.impl.*;
import tlc2.value.*;
import util.UniqueString;

/** Java evaluation of the constant operators declared in spec/Num.tla:
 *  IEEE-754 double arithmetic for TLC.  A number is an integer, a string
 *  holding a decimal literal (as the drivers log it), or the pair <<hi, lo>>
 *  of the two 32-bit halves of its bit pattern (what the operators return). */
public class Num {
    static double d(Value v) {
        if (v instanceof IntValue) return ((IntValue) v).val;
        if (v instanceof StringValue) {
            String s = ((StringValue) v).val.toString();
            switch (s) {
                case "inf": return Double.POSITIVE_INFINITY;
                case "-inf": return Double.NEGATIVE_INFINITY;
                case "nan": case "-nan": return Double.NaN;
                default: return Double.parseDouble(s);
            }
        }
        Value t = (Value) v.toTuple();
        if (t instanceof TupleValue && ((TupleValue) t).elems.length == 2) {
            Value[] e = ((TupleValue) t).elems;
            return Double.longBitsToDouble((((long) ((IntValue) e[0]).val) << 32) | (((IntValue) e[1]).val & 0xffffffffL));
        }
        throw new RuntimeException("Num: not a number: " + v);
    }
    static Value n(double x) {
        long b = Double.doubleToLongBits(x == 0 ? 0.0 : x);
        return new TupleValue(new Value[] { IntValue.gen((int) (b >> 32)), IntValue.gen((int) b) });
    }
    static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
    static Value[] seq(Value v) { return ((TupleValue) v.toTuple()).elems; }

    public static Value NF(Value a) { return n(d(a)); }
    public static Value NAdd(Value a, Value b) { return n(d(a) + d(b)); }
    public static Value NSub(Value a, Value b) { return n(d(a) - d(b)); }
    public static Value NMul(Value a, Value b) { return n(d(a) * d(b)); }
    public static Value NDiv(Value a, Value b) { return n(d(a) / d(b)); }
    public static Value NPow(Value a, Value b) { return n(Math.pow(d(a), d(b))); }
    public static Value NNeg(Value a) { return n(-d(a)); }
    public static Value NAbs(Value a) { return n(Math.abs(d(a))); }
    public static Value NSqrt(Value a) { return n(Math.sqrt(d(a))); }
    public static Value NExp(Value a) { return n(Math.exp(d(a))); }
    public static Value NLog(Value a) { return n(Math.log(d(a))); }
    public static Value NSin(Value a) { return n(Math.sin(d(a))); }
    public static Value NCos(Value a) { return n(Math.cos(d(a))); }
    public static Value NAtan2(Value a, Value b) { return n(Math.atan2(d(a), d(b))); }
    public static Value NAcos(Value a) { return n(Math.acos(d(a))); }
    public static Value NFloor(Value a) { return IntValue.gen((int) Math.floor(d(a))); }
    public static Value NMin(Value a, Value b) { return n(Math.min(d(a), d(b))); }
    public static Value NMax(Value a, Value b) { return n(Math.max(d(a), d(b))); }
    public static Value NLt(Value a, Value b) { return b(d(a) < d(b)); }
    public static Value NLe(Value a, Value b) { return b(d(a) <= d(b)); }
    public static Value NEq(Value a, Value b) { return b(d(a) == d(b)); }
    public static Value NSame(Value a, Value b) { double x = d(a), y = d(b); return b(x == y || (x != x && y != y)); }
    public static Value NIsNaN(Value a) { return b(Double.isNaN(d(a))); }
    public static Value NFinite(Value a) { double x = d(a); return b(!Double.isNaN(x) && !Double.isInfinite(x)); }
    public static Value NClose(Value a, Value b, Value rel, Value abs) {
        double x = d(a), y = d(b);
        if (x == y) return b(true);
        if (Double.isNaN(x) || Double.isNaN(y) || Double.isInfinite(x) || Double.isInfinite(y)) return b(false);
        return b(Math.abs(x - y) <= d(abs) + d(rel) * Math.max(Math.abs(x), Math.abs(y)));
    }
    /** standard normal quantile and distribution */
    public static Value NErf(Value a) { double x = d(a); return n(x < 0 ? -(1 - erfc(-x)) : 1 - erfc(x)); }
    // dilogarithm of 0 <= x <= 1: its series, and the reflection formula beyond 1/2
    static double li2(double x) {
        if (x == 1) return Math.PI * Math.PI / 6;
        if (x > .5) return Math.PI * Math.PI / 6 - Math.log(x) * Math.log1p(-x) - li2(1 - x);
        double s = 0, p = 1;
        for (int k = 1; k < 60; ++k) { p *= x; s += p / ((double) k * k); }
        return s;
    }
    public static Value NLi2(Value a) { return n(li2(d(a))); }
    public static Value NErfc(Value a) { return n(erfc(d(a))); }
    static double erfc(double x) {
        if (Double.isNaN(x)) return x;
        if (x < 0) return 2 - erfc(-x);
        if (x > 27) return 0;
        if (x < 1.5) {   // all terms positive
            double t = x, s = x;
            for (int k = 1; k < 200; k++) { t *= 2 * x * x / (2 * k + 1); s += t; if (t < 1e-18 * s) break; }
            return 1 - 2 / Math.sqrt(Math.PI) * Math.exp(-x * x) * s;
        }
        double f = 0;
        for (int k = 300; k >= 1; k--) f = k / 2.0 / (x + f);
        return Math.exp(-x * x) / Math.sqrt(Math.PI) / (x + f);
    }
    public static Value NSum(Value s) { double t = 0; for (Value v : seq(s)) t += d(v); return n(t); }
    public static Value NDot(Value a, Value b) {
        Value[] x = seq(a), y = seq(b); double t = 0;
        for (int i = 0; i < x.length; i++) t += d(x[i]) * d(y[i]);
        return n(t);
    }
    public static Value SLower(Value a) { return new StringValue(((StringValue) a).val.toString().toLowerCase(java.util.Locale.ROOT)); }
    public static Value NStr(Value a) { return new StringValue(Double.toString(d(a))); }
}
