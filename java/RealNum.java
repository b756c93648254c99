import tlc2.value.impl.*;
import tlc2.value.IValue;

/**
 * TLC evaluation of module RealNum.  A real is the pair <<hi, lo>> of the two
 * 32-bit halves of an IEEE double (TLC integers are 32 bits wide); an f32 is
 * its bit pattern as an integer.
 */
public final class RealNum {
    private static double d(Value v) {
        final TupleValue t = (TupleValue) v.toTuple();
        final long hi = ((IntValue) t.elems[0]).val;
        final long lo = ((IntValue) t.elems[1]).val;
        return Double.longBitsToDouble((hi << 32) | (lo & 0xffffffffL));
    }

    private static Value r(double x) {
        if (x == 0.0) x = 0.0; // one zero
        final long b = Double.doubleToLongBits(x);
        return new TupleValue(IntValue.gen((int) (b >> 32)), IntValue.gen((int) b));
    }

    private static int i(Value v) { return ((IntValue) v).val; }
    private static float f(Value v) { return Float.intBitsToFloat(i(v)); }
    private static BoolValue b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

    // conversions
    public static Value R32(Value v) { return r(f(v)); }
    public static Value RInt(Value v) { return r(i(v)); }
    public static Value RQ(Value n, Value m) { return r((double) i(n) / i(m)); }
    public static Value ToF32(Value v) { return IntValue.gen(Float.floatToIntBits((float) d(v))); }
    public static Value RFloor(Value v) {
        final double x = Math.floor(d(v));
        return IntValue.gen((int) x); // NaN -> 0, saturating
    }

    // arithmetic
    public static Value RAdd(Value x, Value y) { return r(d(x) + d(y)); }
    public static Value RSub(Value x, Value y) { return r(d(x) - d(y)); }
    public static Value RMul(Value x, Value y) { return r(d(x) * d(y)); }
    public static Value RDiv(Value x, Value y) { return r(d(x) / d(y)); }
    public static Value RNeg(Value x) { return r(-d(x)); }
    public static Value RAbs(Value x) { return r(Math.abs(d(x))); }
    public static Value RMax(Value x, Value y) { return r(Math.max(d(x), d(y))); }
    public static Value RMin(Value x, Value y) { return r(Math.min(d(x), d(y))); }
    public static Value RExp(Value x) { return r(Math.exp(d(x))); }
    public static Value RLn(Value x) { return r(Math.log(d(x))); }
    public static Value RLog2(Value x) {
        final double v = d(x);
        if (v > 0 && !Double.isInfinite(v)) {
            final int e = Math.getExponent(v);
            if (e >= -1022 && v == Math.scalb(1.0, e)) return r(e); // powers of two exactly
        }
        return r(Math.log(v) / Math.log(2.0));
    }
    public static Value RPow(Value x, Value y) { return r(Math.pow(d(x), d(y))); }

    // predicates
    public static Value RLt(Value x, Value y) { return b(d(x) < d(y)); }
    public static Value RLe(Value x, Value y) { return b(d(x) <= d(y)); }
    public static Value REq(Value x, Value y) { return b(d(x) == d(y)); }
    public static Value RIsNaN(Value x) { return b(Double.isNaN(d(x))); }
    public static Value RIsFinite(Value x) { return b(!Double.isNaN(d(x)) && !Double.isInfinite(d(x))); }
    public static Value RIsDyadic(Value x, Value k) {
        final double v = d(x);
        if (Double.isNaN(v) || Double.isInfinite(v)) return b(false);
        final double s = Math.scalb(v, i(k));
        return b(s == Math.rint(s) && Math.abs(s) < 9e15);
    }
    public static Value RIsPow2(Value x) {
        final double v = d(x);
        return b(v > 0 && !Double.isInfinite(v) && Math.getExponent(v) >= -1022
                && v == Math.scalb(1.0, Math.getExponent(v)));
    }

    // f32 bit patterns
    public static Value FLt(Value x, Value y) { return b(f(x) < f(y)); }
    public static Value FLe(Value x, Value y) { return b(f(x) <= f(y)); }
    public static Value FEq(Value x, Value y) { return b(f(x) == f(y)); }
    public static Value FIsNaN(Value x) { return b(Float.isNaN(f(x))); }
    public static Value FIsFinite(Value x) { return b(!Float.isNaN(f(x)) && !Float.isInfinite(f(x))); }

    public static Value FSortDesc(Value q) {
        final Value[] e = ((TupleValue) q.toTuple()).elems;
        final Value[] o = new Value[e.length];
        System.arraycopy(e, 0, o, 0, e.length);
        java.util.Arrays.sort(o, (x, y) -> {
            final float a = f(x), b = f(y);
            return a == b ? Integer.compare(i(x), i(y)) : Float.compare(b, a);
        });
        return new TupleValue(o);
    }

    public static Value RDec(Value c) {
        final StringBuilder b = new StringBuilder();
        for (final Value v : ((TupleValue) c.toTuple()).elems) b.append(((StringValue) v).val.toString());
        return r(Double.parseDouble(b.toString()));
    }

    // display, used only in diagnostics
    public static Value FShow(Value x) { return new StringValue(Float.toString(f(x))); }
    public static Value RShow(Value x) { return new StringValue(Double.toString(d(x))); }
}
