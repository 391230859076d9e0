import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;
import tlc2.tool.EvalControl;
import util.UniqueString;

/** IEEE-754 evaluation of the operators of Num.tla (see there). */
public class NumOverrides implements ITLCOverrides {
    public Class[] get() { return new Class[] { NumOverrides.class }; }

    static double d(Value v) {
        if (v instanceof IntValue) return ((IntValue) v).val;
        if (v instanceof TupleValue) {
            Value[] e = ((TupleValue) v).elems;
            if (e.length == 2) return of2(e[0], e[1], v);
        }
        if (v instanceof StringValue) {
            return parse(((StringValue) v).val.toString());
        }
        Value t = v.toTuple() instanceof Value ? (Value) v.toTuple() : null;
        if (t instanceof TupleValue && ((TupleValue) t).elems.length == 2) {
            return of2(((TupleValue) t).elems[0], ((TupleValue) t).elems[1], v);
        }
        throw new RuntimeException("Num: not a real number: " + v);
    }
    static double of2(Value a, Value b, Value v) {
        if (!(a instanceof IntValue) || !(b instanceof IntValue))
            throw new RuntimeException("Num: not a real number: " + v);
        return Double.longBitsToDouble(((long) ((IntValue) a).val << 32) | (((IntValue) b).val & 0xffffffffL));
    }
    static double parse(String s) {
        switch (s) {
            case "nan": case "NaN": case "None": return Double.NaN;
            case "inf": case "Infinity": return Double.POSITIVE_INFINITY;
            case "-inf": case "-Infinity": return Double.NEGATIVE_INFINITY;
            default: return Double.parseDouble(s);
        }
    }
    static Value r(double x) {
        if (x == 0) x = 0.0;   // no negative zero
        long b = Double.doubleToLongBits(x);
        return new TupleValue(new Value[] { IntValue.gen((int) (b >> 32)), IntValue.gen((int) b) });
    }
    static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
    static TupleValue tup(Value v) { return (TupleValue) v.toTuple(); }
    static double re(Value v) { return d(tup(v).elems[0]); }
    static double im(Value v) { return d(tup(v).elems[1]); }
    static Value c(double a, double b) { return new TupleValue(new Value[] { r(a), r(b) }); }

    @TLAPlusOperator(identifier = "R", module = "Num", warn = false)
    public static Value R(Value a) { return r(d(a)); }
    @TLAPlusOperator(identifier = "RAdd", module = "Num", warn = false)
    public static Value RAdd(Value a, Value b) { return r(d(a) + d(b)); }
    @TLAPlusOperator(identifier = "RSub", module = "Num", warn = false)
    public static Value RSub(Value a, Value b) { return r(d(a) - d(b)); }
    @TLAPlusOperator(identifier = "RMul", module = "Num", warn = false)
    public static Value RMul(Value a, Value b) { return r(d(a) * d(b)); }
    @TLAPlusOperator(identifier = "RDiv", module = "Num", warn = false)
    public static Value RDiv(Value a, Value b) { return r(d(a) / d(b)); }
    @TLAPlusOperator(identifier = "\\oplus", module = "Num", warn = false)
    public static Value oAdd(Value a, Value b) { return r(d(a) + d(b)); }
    @TLAPlusOperator(identifier = "\\ominus", module = "Num", warn = false)
    public static Value oSub(Value a, Value b) { return r(d(a) - d(b)); }
    @TLAPlusOperator(identifier = "\\otimes", module = "Num", warn = false)
    public static Value oMul(Value a, Value b) { return r(d(a) * d(b)); }
    @TLAPlusOperator(identifier = "\\oslash", module = "Num", warn = false)
    public static Value oDiv(Value a, Value b) { return r(d(a) / d(b)); }
    @TLAPlusOperator(identifier = "RPow", module = "Num", warn = false)
    public static Value RPow(Value a, Value b) { return r(StrictMath.pow(d(a), d(b))); }
    @TLAPlusOperator(identifier = "RNeg", module = "Num", warn = false)
    public static Value RNeg(Value a) { return r(-d(a)); }
    @TLAPlusOperator(identifier = "RAbs", module = "Num", warn = false)
    public static Value RAbs(Value a) { return r(Math.abs(d(a))); }
    @TLAPlusOperator(identifier = "RSqrt", module = "Num", warn = false)
    public static Value RSqrt(Value a) { return r(Math.sqrt(d(a))); }
    @TLAPlusOperator(identifier = "RExp", module = "Num", warn = false)
    public static Value RExp(Value a) { return r(StrictMath.exp(d(a))); }
    @TLAPlusOperator(identifier = "RLn", module = "Num", warn = false)
    public static Value RLn(Value a) { return r(StrictMath.log(d(a))); }
    @TLAPlusOperator(identifier = "RSin", module = "Num", warn = false)
    public static Value RSin(Value a) { return r(StrictMath.sin(d(a))); }
    @TLAPlusOperator(identifier = "RCos", module = "Num", warn = false)
    public static Value RCos(Value a) { return r(StrictMath.cos(d(a))); }
    @TLAPlusOperator(identifier = "RMin", module = "Num", warn = false)
    public static Value RMin(Value a, Value b) { return r(Math.min(d(a), d(b))); }
    @TLAPlusOperator(identifier = "RMax", module = "Num", warn = false)
    public static Value RMax(Value a, Value b) { return r(Math.max(d(a), d(b))); }
    @TLAPlusOperator(identifier = "RCeil", module = "Num", warn = false)
    public static Value RCeil(Value a) { return IntValue.gen((int) Math.ceil(d(a))); }
    @TLAPlusOperator(identifier = "RFloor", module = "Num", warn = false)
    public static Value RFloor(Value a) { return IntValue.gen((int) Math.floor(d(a))); }
    @TLAPlusOperator(identifier = "RLt", module = "Num", warn = false)
    public static Value RLt(Value a, Value b) { return bool(d(a) < d(b)); }
    @TLAPlusOperator(identifier = "RLe", module = "Num", warn = false)
    public static Value RLe(Value a, Value b) { return bool(d(a) <= d(b)); }
    @TLAPlusOperator(identifier = "REq", module = "Num", warn = false)
    public static Value REq(Value a, Value b) { return bool(d(a) == d(b)); }
    @TLAPlusOperator(identifier = "RFinite", module = "Num", warn = false)
    public static Value RFinite(Value a) { double x = d(a); return bool(!Double.isNaN(x) && !Double.isInfinite(x)); }
    @TLAPlusOperator(identifier = "RNaN", module = "Num", warn = false)
    public static Value RNaN(Value a) { return bool(Double.isNaN(d(a))); }
    static boolean close(double x, double y, double rt, double at) {
        if (Double.isNaN(x) || Double.isNaN(y)) return false;
        if (Double.isInfinite(x) || Double.isInfinite(y)) return x == y;
        return Math.abs(x - y) <= at + rt * Math.max(Math.abs(x), Math.abs(y));
    }
    @TLAPlusOperator(identifier = "RClose", module = "Num", warn = false)
    public static Value RClose(Value a, Value b, Value rt, Value at) { return bool(close(d(a), d(b), d(rt), d(at))); }
    @TLAPlusOperator(identifier = "RStr", module = "Num", warn = false)
    public static Value RStr(Value a) { return new StringValue(Double.toString(d(a))); }
    @TLAPlusOperator(identifier = "RSum", module = "Num", warn = false)
    public static Value RSum(Value s) { double t = 0; for (Value v : tup(s).elems) t += d(v); return r(t); }
    @TLAPlusOperator(identifier = "Pi", module = "Num", warn = false)
    public static Value Pi() { return r(Math.PI); }

    @TLAPlusOperator(identifier = "SeqGen", module = "Num", warn = false)
    public static Value SeqGen(Value n, OpValue op) {
        int k = ((IntValue) n).val;
        Value[] out = new Value[k];
        Value[] args = new Value[1];
        for (int i = 0; i < k; i++) { args[0] = IntValue.gen(i + 1); out[i] = force(op.eval(args, EvalControl.Clear)); }
        return new TupleValue(out);
    }
    @TLAPlusOperator(identifier = "SeqMap", module = "Num", warn = false)
    public static Value SeqMap(Value s, OpValue op) {
        Value[] in = tup(s).elems;
        Value[] out = new Value[in.length];
        for (int i = 0; i < in.length; i++) out[i] = force(op.eval(new Value[] { in[i] }, EvalControl.Clear));
        return new TupleValue(out);
    }
    @TLAPlusOperator(identifier = "FoldN", module = "Num", warn = false)
    public static Value FoldN(Value n, Value base, OpValue op) {
        int k = ((IntValue) n).val;
        Value acc = base;
        for (int i = 1; i <= k; i++) acc = force(op.eval(new Value[] { acc, IntValue.gen(i) }, EvalControl.Clear));
        return acc;
    }
    @TLAPlusOperator(identifier = "AllN", module = "Num", warn = false)
    public static Value AllN(Value n, OpValue op) {
        int k = ((IntValue) n).val;
        for (int i = 1; i <= k; i++)
            if (op.eval(new Value[] { IntValue.gen(i) }, EvalControl.Clear) != BoolValue.ValTrue) return BoolValue.ValFalse;
        return BoolValue.ValTrue;
    }
    static Value force(Value v) {
        if (v instanceof FcnLambdaValue) {
            Value t = (Value) v.toTuple();
            return t != null ? t : (Value) v.toFcnRcd();
        }
        return v;
    }

    @TLAPlusOperator(identifier = "CAdd", module = "Num", warn = false)
    public static Value CAdd(Value x, Value y) { return c(re(x) + re(y), im(x) + im(y)); }
    @TLAPlusOperator(identifier = "CSub", module = "Num", warn = false)
    public static Value CSub(Value x, Value y) { return c(re(x) - re(y), im(x) - im(y)); }
    @TLAPlusOperator(identifier = "CMul", module = "Num", warn = false)
    public static Value CMul(Value x, Value y) {
        double a = re(x), b = im(x), e = re(y), f = im(y);
        return c(a * e - b * f, a * f + b * e);
    }
    @TLAPlusOperator(identifier = "CDiv", module = "Num", warn = false)
    public static Value CDiv(Value x, Value y) {
        double a = re(x), b = im(x), e = re(y), f = im(y);
        // scaled to avoid overflow
        double s = Math.max(Math.abs(e), Math.abs(f));
        if (s == 0 || Double.isInfinite(s) || Double.isNaN(s)) return c(a / s, b / s);
        e /= s; f /= s;
        double q = (e * e + f * f) * s;
        return c((a * e + b * f) / q, (b * e - a * f) / q);
    }
    @TLAPlusOperator(identifier = "CScale", module = "Num", warn = false)
    public static Value CScale(Value a, Value x) { double k = d(a); return c(k * re(x), k * im(x)); }
    @TLAPlusOperator(identifier = "CExp", module = "Num", warn = false)
    public static Value CExp(Value x) {
        double m = StrictMath.exp(re(x)), t = im(x);
        return c(m * StrictMath.cos(t), m * StrictMath.sin(t));
    }
    @TLAPlusOperator(identifier = "CSqrt", module = "Num", warn = false)
    public static Value CSqrt(Value x) {
        double a = re(x), b = im(x), m = StrictMath.hypot(a, b);
        if (m == 0) return c(0, 0);
        double u = Math.sqrt((m + Math.abs(a)) / 2), w = Math.abs(b) / (2 * u);
        if (a >= 0) return c(u, Math.copySign(w, b));
        return c(w, Math.copySign(u, b));
    }
    @TLAPlusOperator(identifier = "CAbs", module = "Num", warn = false)
    public static Value CAbs(Value x) { return r(StrictMath.hypot(re(x), im(x))); }
    @TLAPlusOperator(identifier = "CClose", module = "Num", warn = false)
    public static Value CClose(Value x, Value y, Value rt, Value at) {
        double a = re(x), b = im(x), e = re(y), f = im(y);
        double dd = StrictMath.hypot(a - e, b - f);
        double m = Math.max(StrictMath.hypot(a, b), StrictMath.hypot(e, f));
        return bool(dd <= d(at) + d(rt) * m);
    }
}
