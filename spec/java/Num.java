import java.util.Arrays;
import tlc2.value.IValue;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/**
 * Evaluation of module Num: IEEE doubles carried as strings (Java/Python
 * repr).  Only scalar arithmetic plus the bulk operators the module also
 * defines in TLA+ (below the line in Num.tla); NumSelfTest compares them.
 */
public class Num {
    private static double d(final Value v) {
        if (v instanceof IntValue) return ((IntValue) v).val;
        return Double.parseDouble(((StringValue) v).val.toString());
    }
    private static Value s(final double x) { return new StringValue(Double.toString(x)); }
    private static Value b(final boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
    private static Value[] seq(final Value v) { return ((TupleValue) v.toTuple()).elems; }

    public static Value RAdd(final Value x, final Value y) { return s(d(x) + d(y)); }
    public static Value RSub(final Value x, final Value y) { return s(d(x) - d(y)); }
    public static Value RMul(final Value x, final Value y) { return s(d(x) * d(y)); }
    public static Value RDiv(final Value x, final Value y) { return s(d(x) / d(y)); }
    public static Value RPow(final Value x, final Value y) { return s(Math.pow(d(x), d(y))); }
    public static Value RSqrt(final Value x) { return s(Math.sqrt(d(x))); }
    public static Value RSin(final Value x) { return s(Math.sin(d(x))); }
    public static Value RCos(final Value x) { return s(Math.cos(d(x))); }
    public static Value RAsin(final Value x) { return s(Math.asin(d(x))); }
    public static Value RExp(final Value x) { return s(Math.exp(d(x))); }
    public static Value RAbs(final Value x) { return s(Math.abs(d(x))); }
    public static Value RNeg(final Value x) { return s(-d(x)); }
    public static Value RMax(final Value x, final Value y) { return s(Math.max(d(x), d(y))); }
    public static Value RMin(final Value x, final Value y) { return s(Math.min(d(x), d(y))); }
    public static Value RLt(final Value x, final Value y) { return b(d(x) < d(y)); }
    public static Value RLe(final Value x, final Value y) { return b(d(x) <= d(y)); }
    public static Value REq(final Value x, final Value y) { return b(d(x) == d(y)); }
    public static Value RFinite(final Value x) { final double v = d(x); return b(!Double.isNaN(v) && !Double.isInfinite(v)); }
    public static Value RFloor(final Value x) { return s(Math.floor(d(x))); }
    public static Value RCeil(final Value x) { return s(Math.ceil(d(x))); }
    public static Value RInt(final Value x) { return IntValue.gen((int) d(x)); }
    public static Value RFloat32(final Value x) { return s((double) (float) d(x)); }
    public static Value RClose(final Value x, final Value y, final Value tol) {
        final double a = d(x), c = d(y);
        return b(!Double.isNaN(a) && !Double.isNaN(c) && (a == c || Math.abs(a - c) <= d(tol)));
    }
    public static Value RNear(final Value x, final Value y, final Value rt, final Value at) {
        final double a = d(x), c = d(y);
        return b(!Double.isNaN(a) && !Double.isNaN(c)
                 && (a == c || Math.abs(a - c) <= d(at) + d(rt) * Math.max(Math.abs(a), Math.abs(c))));
    }
    public static Value RSum(final Value v) {
        double t = 0; for (final Value e : seq(v)) t += d(e); return s(t);
    }
    public static Value RSumSq(final Value v) {
        double t = 0; for (final Value e : seq(v)) t += d(e) * d(e); return s(t);
    }
    public static Value RMaxSeq(final Value v) {
        double t = Double.NEGATIVE_INFINITY; for (final Value e : seq(v)) t = Math.max(t, d(e)); return s(t);
    }
    /** out[k+1] = sum of w[i] with idx[i] = k, k in 0..n-1 */
    public static Value RScatter(final Value idx, final Value w, final Value n) {
        final Value[] ix = seq(idx), ww = seq(w);
        final int len = ((IntValue) n).val;
        final double[] o = new double[len];
        for (int i = 0; i < ix.length; i++) o[((IntValue) ix[i]).val] += d(ww[i]);
        final Value[] r = new Value[len];
        for (int i = 0; i < len; i++) r[i] = s(o[i]);
        return new TupleValue(r);
    }
    private interface Op { double f(double a, double b); }
    private static Value zip(final Value x, final Value y, final Op op) {
        final Value[] a = seq(x), c = seq(y);
        final Value[] r = new Value[a.length];
        for (int i = 0; i < a.length; i++) r[i] = s(op.f(d(a[i]), d(c[i])));
        return new TupleValue(r);
    }
    private static Value zipS(final Value x, final Value y, final Op op) {
        final Value[] a = seq(x);
        final double c = d(y);
        final Value[] r = new Value[a.length];
        for (int i = 0; i < a.length; i++) r[i] = s(op.f(d(a[i]), c));
        return new TupleValue(r);
    }
    public static Value RDivS(final Value v, final Value c) { return zipS(v, c, (p, q) -> p / q); }
    public static Value RMulS(final Value v, final Value c) { return zipS(v, c, (p, q) -> p * q); }
    public static Value RAddV(final Value a, final Value c) { return zip(a, c, (p, q) -> p + q); }
    public static Value RSubV(final Value a, final Value c) { return zip(a, c, (p, q) -> p - q); }
    public static Value RMulV(final Value a, final Value c) { return zip(a, c, (p, q) -> p * q); }
    public static Value RClipV(final Value a) { return zipS(a, IntValue.gen(0), (p, q) -> Math.max(p, q)); }
    public static Value RGather(final Value p, final Value idx) {
        final Value[] rows = seq(p), ix = seq(idx);
        double t = 0;
        for (int j = 0; j < ix.length; j++) t += d(seq(rows[j])[((IntValue) ix[j]).val]);
        return s(t);
    }
    /** Sequences close element by element. */
    public static Value RCloseSeq(final Value x, final Value y, final Value tol) {
        final Value[] a = seq(x), c = seq(y);
        final double t = d(tol);
        if (a.length != c.length) return BoolValue.ValFalse;
        for (int i = 0; i < a.length; i++) {
            final double p = d(a[i]), q = d(c[i]);
            if (Double.isNaN(p) || Double.isNaN(q)) return BoolValue.ValFalse;
            if (p != q && !(Math.abs(p - q) <= t)) return BoolValue.ValFalse;
        }
        return BoolValue.ValTrue;
    }
}
