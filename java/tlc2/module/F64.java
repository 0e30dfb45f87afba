package tlc2.module;

import tlc2.value.impl.*;
import tlc2.tool.EvalException;
import tlc2.output.EC;

/**
 * IEEE-754 double arithmetic for TLC. A double is the TLA+ pair <<hi, lo>> of
 * the (signed) upper and lower 32 bits of its bit pattern. Only primitive
 * operations live here; everything with meaning is written in TLA+.
 */
public class F64 {
    private static int ival(Value v) {
        if (v instanceof IntValue) return ((IntValue) v).val;
        throw new EvalException(EC.GENERAL, "F64: integer expected, got " + v);
    }
    private static double d(Value v) {
        if (v instanceof IntValue) return ((IntValue) v).val;
        TupleValue t = v instanceof TupleValue ? (TupleValue) v : (TupleValue) v.toTuple();
        if (t == null || t.elems.length != 2)
            throw new EvalException(EC.GENERAL, "F64: double expected, got " + v);
        long hi = ival(t.elems[0]), lo = ival(t.elems[1]) & 0xffffffffL;
        return Double.longBitsToDouble((hi << 32) | lo);
    }
    private static Value f(double x) {
        long b = Double.doubleToRawLongBits(x);
        return new TupleValue(IntValue.gen((int) (b >> 32)), IntValue.gen((int) b));
    }
    private static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

    public static Value FInt(Value a) { return f(ival(a)); }
    public static Value FRat(Value n, Value m) { return f((double) ival(n) / (double) ival(m)); }
    public static Value FAdd(Value x, Value y) { return f(d(x) + d(y)); }
    public static Value FSub(Value x, Value y) { return f(d(x) - d(y)); }
    public static Value FMul(Value x, Value y) { return f(d(x) * d(y)); }
    public static Value FDiv(Value x, Value y) { return f(d(x) / d(y)); }
    public static Value FNeg(Value x) { return f(-d(x)); }
    public static Value FAbs(Value x) { return f(Math.abs(d(x))); }
    public static Value FSqrt(Value x) { return f(Math.sqrt(d(x))); }
    public static Value FExp(Value x) { return f(Math.exp(d(x))); }
    public static Value FLog(Value x) { return f(Math.log(d(x))); }
    public static Value FSin(Value x) { return f(Math.sin(d(x))); }
    public static Value FCos(Value x) { return f(Math.cos(d(x))); }
    public static Value FTan(Value x) { return f(Math.tan(d(x))); }
    public static Value FAtan2(Value y, Value x) { return f(Math.atan2(d(y), d(x))); }
    public static Value FPow(Value x, Value y) { return f(Math.pow(d(x), d(y))); }
    public static Value FFloor(Value x) { return IntValue.gen((int) Math.floor(d(x))); }
    public static Value FCeil(Value x) { return IntValue.gen((int) Math.ceil(d(x))); }
    public static Value FRound(Value x) { return IntValue.gen((int) Math.rint(d(x))); }
    public static Value FLt(Value x, Value y) { return b(d(x) < d(y)); }
    public static Value FLe(Value x, Value y) { return b(d(x) <= d(y)); }
    public static Value FEq(Value x, Value y) { return b(d(x) == d(y)); }
    public static Value FMin(Value x, Value y) { return f(Math.min(d(x), d(y))); }
    public static Value FMax(Value x, Value y) { return f(Math.max(d(x), d(y))); }
    public static Value FFinite(Value x) { double v = d(x); return b(!Double.isNaN(v) && !Double.isInfinite(v)); }
    /** |x-y| <= tol * max(scale, |x|, |y|) */
    public static Value FNear(Value x, Value y, Value scale, Value tol) {
        double a = d(x), c = d(y);
        if (Double.isNaN(a) || Double.isNaN(c)) return b(false);
        return b(a == c || Math.abs(a - c) <= d(tol) * Math.max(d(scale), Math.max(Math.abs(a), Math.abs(c))));
    }
    public static Value FSum(Value s) {
        TupleValue t = (TupleValue) s.toTuple();
        double r = 0;
        for (Value v : t.elems) r += d(v);
        return f(r);
    }
    public static Value FBig(Value s) {
        TupleValue t = (TupleValue) s.toTuple();
        double r = 0;
        for (Value v : t.elems) if (Double.isFinite(d(v))) r = Math.max(r, Math.abs(d(v)));
        return f(r);
    }
    public static Value FDot(Value s, Value u) {
        TupleValue t = (TupleValue) s.toTuple(), w = (TupleValue) u.toTuple();
        double r = 0;
        for (int i = 0; i < t.elems.length; i++) r += d(t.elems[i]) * d(w.elems[i]);
        return f(r);
    }
    public static Value FStr(Value x) { return new StringValue(Double.toString(d(x))); }
    /** order-preserving textual value: parse a decimal literal */
    public static Value FLit(Value s) { return f(Double.parseDouble(((StringValue) s).val.toString())); }
    /** parse the decimal literal whose characters are given as a sequence */
    public static Value FParse(Value s) {
        TupleValue t = (TupleValue) s.toTuple();
        StringBuilder b = new StringBuilder();
        for (Value v : t.elems) b.append(((StringValue) v).val.toString());
        return f(Double.parseDouble(b.toString()));
    }
}
