import tlc2.value.impl.*;
import tlc2.value.IBoolValue;
import java.util.concurrent.ConcurrentHashMap;

/** TLC module override for Real64.tla: IEEE-754 doubles carried as <<hi, lo>> (the two 32-bit halves). */
public class Real64 {
    private static final ConcurrentHashMap<String, Value> LIT = new ConcurrentHashMap<>();
    private static final ConcurrentHashMap<String, Double> DEC = new ConcurrentHashMap<>();

    static double d(Value v) {
        if (v instanceof IntValue) return ((IntValue) v).val;
        if (v instanceof StringValue) {
            String k = ((StringValue) v).val.toString();
            Double x = DEC.get(k);
            if (x == null) { x = Double.parseDouble(k); DEC.put(k, x); }
            return x;
        }
        if (!(v instanceof TupleValue)) {
            Value t = v.toTuple();
            if (t == null) throw new RuntimeException("Real64: not a number: " + v);
            v = t;
        }
        Value[] e = ((TupleValue) v).elems;
        if (e.length != 2) throw new RuntimeException("Real64: not a number: " + v);
        int hi = ((IntValue) e[0]).val, lo = ((IntValue) e[1]).val;
        return Double.longBitsToDouble(((long) hi << 32) | (lo & 0xffffffffL));
    }
    static Value r(double x) {
        long b = Double.doubleToLongBits(x);
        return new TupleValue(IntValue.gen((int) (b >>> 32)), IntValue.gen((int) b));
    }
    static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

    public static Value R(Value s) {
        String k = ((StringValue) s).val.toString();
        Value v = LIT.get(k);
        if (v == null) { v = r(Double.parseDouble(k)); LIT.put(k, v); }
        return v;
    }
    public static Value ToR(Value a) { return r(d(a)); }
    public static Value RAdd(Value a, Value c) { return r(d(a) + d(c)); }
    public static Value RSub(Value a, Value c) { return r(d(a) - d(c)); }
    public static Value RMul(Value a, Value c) { return r(d(a) * d(c)); }
    public static Value RDiv(Value a, Value c) { return r(d(a) / d(c)); }
    public static Value RNeg(Value a) { return r(-d(a)); }
    public static Value RPow(Value a, Value c) { return r(Math.pow(d(a), d(c))); }
    public static Value RLt(Value a, Value c) { return b(d(a) < d(c)); }
    public static Value RLe(Value a, Value c) { return b(d(a) <= d(c)); }
    public static Value Eq(Value a, Value c) { return b(d(a) == d(c)); }
    public static Value IsNaN(Value a) { return b(Double.isNaN(d(a))); }
    public static Value IsFin(Value a) { double x = d(a); return b(!Double.isNaN(x) && !Double.isInfinite(x)); }
    /** numpy minimum / maximum: NaN propagates */
    public static Value Min2(Value a, Value c) { return r(Math.min(d(a), d(c))); }
    public static Value Max2(Value a, Value c) { return r(Math.max(d(a), d(c))); }
    public static Value Abs(Value a) { return r(Math.abs(d(a))); }
    public static Value Sqrt(Value a) { return r(Math.sqrt(d(a))); }
    public static Value Exp(Value a) { return r(Math.exp(d(a))); }
    public static Value Ln(Value a) { return r(Math.log(d(a))); }
    public static Value Sin(Value a) { return r(Math.sin(d(a))); }
    public static Value Cos(Value a) { return r(Math.cos(d(a))); }
    public static Value Tan(Value a) { return r(Math.tan(d(a))); }
    public static Value Atan(Value a) { return r(Math.atan(d(a))); }
    public static Value Sinh(Value a) { return r(Math.sinh(d(a))); }
    public static Value Cosh(Value a) { return r(Math.cosh(d(a))); }
    public static Value Tanh(Value a) { return r(Math.tanh(d(a))); }
    public static Value Floor(Value a) { return r(Math.floor(d(a))); }
    public static Value Rint(Value a) { return r(Math.rint(d(a))); }
    /** |a-b| <= tol * max(|a|,|b|), NaN closes only to NaN, infinities only to themselves */
    public static Value Close(Value a, Value c, Value t) {
        double x = d(a), y = d(c), tol = d(t);
        if (Double.isNaN(x) || Double.isNaN(y)) return b(Double.isNaN(x) && Double.isNaN(y));
        if (x == y) return b(true);
        if (Double.isInfinite(x) || Double.isInfinite(y)) return b(false);
        double m = Math.max(Math.abs(x), Math.abs(y));
        return b(Math.abs(x - y) <= tol * m + 1e-300);
    }
    public static Value CloseAbs(Value a, Value c, Value t) {
        double x = d(a), y = d(c);
        return b(x == y || Math.abs(x - y) <= d(t));
    }
    public static Value RFmt(Value a) { return new StringValue(Double.toString(d(a))); }
    /** deterministic uniform [0,1) from a seed and two keys */
    public static Value Rnd(Value seed, Value i, Value key) {
        long h = 0x9E3779B97F4A7C15L * (((IntValue) seed).val + 1L);
        h = mix(h ^ (((IntValue) i).val * 0xD1B54A32D192ED03L));
        String k = key instanceof StringValue ? ((StringValue) key).val.toString() : key.toString();
        for (int j = 0; j < k.length(); j++) h = mix(h ^ (k.charAt(j) * 0x100000001B3L));
        h = mix(h);
        return r((h >>> 11) * 0x1.0p-53);
    }
    /** deterministic integer 0..n-1 */
    public static Value RndInt(Value seed, Value i, Value key, Value n) {
        double u = d(Rnd(seed, i, key));
        return IntValue.gen((int) Math.floor(u * ((IntValue) n).val));
    }
    private static long mix(long z) {
        z = (z ^ (z >>> 30)) * 0xBF58476D1CE4E5B9L;
        z = (z ^ (z >>> 27)) * 0x94D049BB133111EBL;
        return z ^ (z >>> 31);
    }
    /** the double nearest to a with only `digits` significant decimal digits (readable test inputs) */
    public static Value Sig(Value a, Value digits) {
        double x = d(a);
        if (x == 0 || Double.isNaN(x) || Double.isInfinite(x)) return r(x);
        return r(new java.math.BigDecimal(x).round(new java.math.MathContext(((IntValue) digits).val)).doubleValue());
    }
    public static Value Nint(Value a) { return IntValue.gen((int) Math.rint(d(a))); }
    /** type tests and an equality that is false (not an error) across types */
    public static Value IsBool(Value a) { return b(a instanceof BoolValue); }
    public static Value IsStr(Value a) { return b(a instanceof StringValue); }
    public static Value IsRec(Value a) { return b(a instanceof RecordValue || a instanceof FcnRcdValue); }
    public static Value IsReal(Value a) {
        if (!(a instanceof TupleValue)) { if (a instanceof FcnRcdValue) { a = a.toTuple(); } if (a == null || !(a instanceof TupleValue)) return b(false); }
        Value[] e = ((TupleValue) a).elems;
        return b(e.length == 2 && e[0] instanceof IntValue && e[1] instanceof IntValue);
    }
    public static Value Same(Value a, Value c) {
        if (a instanceof StringValue || c instanceof StringValue)
            return b(a instanceof StringValue && c instanceof StringValue && a.equals(c));
        if (a instanceof BoolValue || c instanceof BoolValue)
            return b(a instanceof BoolValue && c instanceof BoolValue && a.equals(c));
        if (a instanceof IntValue || c instanceof IntValue)
            return b(a instanceof IntValue && c instanceof IntValue && a.equals(c));
        try { return b(a.equals(c)); } catch (RuntimeException ex) { return b(false); }
    }
    /** a result as the implementation reports it: numbers as reals, everything else unchanged */
    public static Value AsOut(Value a) {
        if (a instanceof IntValue) return r(((IntValue) a).val);
        if (a instanceof StringValue) {
            try { return r(Double.parseDouble(((StringValue) a).val.toString())); } catch (NumberFormatException ex) { return a; }
        }
        return a;
    }
    /** the neighbouring double, n steps away */
    public static Value Ulp(Value a, Value n) {
        double x = d(a);
        int k = (int) d(n);
        for (; k > 0; k--) x = Math.nextUp(x);
        for (; k < 0; k++) x = Math.nextDown(x);
        return r(x);
    }
    private static final ConcurrentHashMap<String, java.io.PrintWriter> OUT = new ConcurrentHashMap<>();
    static { Runtime.getRuntime().addShutdownHook(new Thread(() -> OUT.values().forEach(java.io.PrintWriter::close))); }
    /** appends one line to a file (truncated at first use in this run) */
    public static Value Emit(Value file, Value line) {
        String f = ((StringValue) file).val.toString();
        java.io.PrintWriter w = OUT.computeIfAbsent(f, k -> {
            try { return new java.io.PrintWriter(new java.io.BufferedWriter(new java.io.FileWriter(k), 1 << 16)); }
            catch (java.io.IOException ex) { throw new RuntimeException(ex); }
        });
        synchronized (w) { w.println(((StringValue) line).val.toString()); }
        return BoolValue.ValTrue;
    }
}
