import tlc2.value.impl.*;
import util.*;
import tlc2.tool.EvalException;

/** Binary64 arithmetic for module R; a real is the pair of 32-bit halves of its bit pattern. */
public class R {
    private static double d(Value v) {
        if (v instanceof IntValue) return ((IntValue) v).val;
        TupleValue t = v instanceof TupleValue ? (TupleValue) v : (TupleValue) v.toTuple();
        if (t == null || t.elems.length != 2) throw new RuntimeException("not a real: " + v);
        long hi = ((IntValue) t.elems[0]).val, lo = ((IntValue) t.elems[1]).val;
        return Double.longBitsToDouble((hi << 32) | (lo & 0xffffffffL));
    }
    private static Value v(double x) {
        if (x == 0.0) x = 0.0; // one zero
        if (Double.isNaN(x)) x = Double.NaN;
        long b = Double.doubleToLongBits(x);
        return new TupleValue(IntValue.gen((int) (b >> 32)), IntValue.gen((int) b));
    }
    private static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
    private static Value[] seq(Value s) {
        TupleValue t = s instanceof TupleValue ? (TupleValue) s : (TupleValue) s.toTuple();
        if (t == null) throw new RuntimeException("not a sequence: " + s);
        return t.elems;
    }
    public static Value Num(Value s) {
        if (s instanceof IntValue) return v(((IntValue) s).val);
        String x = ((StringValue) s).val.toString();
        if (x.equals("nan")) return v(Double.NaN);
        if (x.equals("inf")) return v(Double.POSITIVE_INFINITY);
        if (x.equals("-inf")) return v(Double.NEGATIVE_INFINITY);
        return v(Double.parseDouble(x));
    }
    public static Value FromInt(Value n) { return v(((IntValue) n).val); }
    public static Value Frac(Value n, Value m) { return v(((double) ((IntValue) n).val) / ((IntValue) m).val); }
    public static Value Add(Value a, Value c) { return v(d(a) + d(c)); }
    public static Value Sub(Value a, Value c) { return v(d(a) - d(c)); }
    public static Value Mul(Value a, Value c) { return v(d(a) * d(c)); }
    public static Value Div(Value a, Value c) { return v(d(a) / d(c)); }
    public static Value RNeg(Value a) { return v(-d(a)); }
    public static Value Abs(Value a) { return v(Math.abs(d(a))); }
    public static Value Sqrt(Value a) { return v(Math.sqrt(d(a))); }
    public static Value Exp(Value a) { return v(Math.exp(d(a))); }
    public static Value Log(Value a) { return v(Math.log(d(a))); }
    public static Value Pow(Value a, Value c) { return v(Math.pow(d(a), d(c))); }
    public static Value Min2(Value a, Value c) { return v(Math.min(d(a), d(c))); }
    public static Value Max2(Value a, Value c) { return v(Math.max(d(a), d(c))); }
    public static Value Floor(Value a) {
        double x = Math.floor(d(a));
        if (!(Math.abs(x) < 2147483647.0)) throw new RuntimeException("Floor out of range: " + x);
        return IntValue.gen((int) x);
    }
    public static Value Lt(Value a, Value c) { return b(d(a) < d(c)); }
    public static Value Le(Value a, Value c) { return b(d(a) <= d(c)); }
    public static Value Eq(Value a, Value c) { return b(d(a) == d(c)); }
    public static Value IsNaN(Value a) { return b(Double.isNaN(d(a))); }
    public static Value Show(Value a) { return new StringValue(Double.toString(d(a))); }
    public static Value Float32(Value a) { return v((double) (float) d(a)); }
    public static Value SumSeq(Value s) {
        double r = 0;
        for (Value e : seq(s)) r += d(e);
        return v(r);
    }
    public static Value Dot(Value s, Value t) {
        Value[] p = seq(s), q = seq(t);
        double r = 0;
        for (int i = 0; i < p.length; i++) r += d(p[i]) * d(q[i]);
        return v(r);
    }
    public static Value Near(Value a, Value c, Value tol) {
        double x = d(a), y = d(c);
        if (Double.isNaN(x) || Double.isNaN(y)) return b(Double.isNaN(x) && Double.isNaN(y));
        return b(x == y || Math.abs(x - y) <= d(tol) * Math.max(1.0, Math.max(Math.abs(x), Math.abs(y))));
    }
    public static Value NearRel(Value a, Value c, Value tol) {
        double x = d(a), y = d(c);
        if (Double.isNaN(x) || Double.isNaN(y)) return b(Double.isNaN(x) && Double.isNaN(y));
        return b(x == y || Math.abs(x - y) <= d(tol) * Math.max(Math.abs(x), Math.abs(y)));
    }
}
