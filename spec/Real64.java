import tlc2.value.impl.*;

/** TLC evaluates the primitives of Real64.tla with these methods (same class and method names). */
public class Real64 {
    private static double d(Value v) {
        Value[] e = ((TupleValue) v.toTuple()).elems;
        return Double.longBitsToDouble(((long) ((IntValue) e[0]).val << 32) | (((IntValue) e[1]).val & 0xffffffffL));
    }
    private static Value r(double x) {
        long b = Double.doubleToLongBits(x + 0.0);          // -0.0 + 0.0 = +0.0, NaN canonical
        return new TupleValue(new Value[] { IntValue.gen((int) (b >> 32)), IntValue.gen((int) b) });
    }
    private static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

    public static Value R(Value s)             { return r(Double.parseDouble(((StringValue) s).val.toString())); }
    public static Value RI(Value i)            { return r(((IntValue) i).val); }
    public static Value RAdd(Value x, Value y) { return r(d(x) + d(y)); }
    public static Value RSub(Value x, Value y) { return r(d(x) - d(y)); }
    public static Value RMul(Value x, Value y) { return r(d(x) * d(y)); }
    public static Value RDiv(Value x, Value y) { return r(d(x) / d(y)); }
    public static Value RSqrt(Value x)         { return r(Math.sqrt(d(x))); }
    public static Value RTan(Value x)          { return r(Math.tan(d(x) * (Math.PI / 180.0))); }
    public static Value RLt(Value x, Value y)  { return b(d(x) < d(y)); }
    public static Value RLe(Value x, Value y)  { return b(d(x) <= d(y)); }
    public static Value RFloor(Value x)        { return IntValue.gen((int) Math.floor(d(x))); }
    public static Value RStr(Value x)          { return new StringValue(Double.toString(d(x))); }
    public static Value RSum(Value s) {
        double t = 0;
        for (Value v : ((TupleValue) s.toTuple()).elems) t += d(v);
        return r(t);
    }
}
