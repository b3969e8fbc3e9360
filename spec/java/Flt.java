import tlc2.value.impl.*;
import tlc2.value.*;
import java.util.concurrent.ConcurrentHashMap;

/** TLC module override of Flt.tla: double arithmetic only, no domain logic. */
public class Flt {
  private static final ConcurrentHashMap<String, Double> CACHE = new ConcurrentHashMap<>();
  static double num(Value x) {
    if (x instanceof FltValue) return ((FltValue) x).v;
    if (x instanceof IntValue) return ((IntValue) x).val;
    if (x instanceof LazyValue) return num((Value) ((LazyValue) x).normalize());
    if (x instanceof StringValue) {
      String s = ((StringValue) x).val.toString();
      Double d = CACHE.get(s);
      if (d == null) {
        double q;
        if (s.equals("nan")) q = Double.NaN;
        else if (s.equals("inf")) q = Double.POSITIVE_INFINITY;
        else if (s.equals("-inf")) q = Double.NEGATIVE_INFINITY;
        else q = Double.parseDouble(s);
        d = q;
        if (CACHE.size() < 200000) CACHE.put(s, d);
      }
      return d;
    }
    throw new RuntimeException("Flt: not a number: " + x);
  }
  static Value mk(double d) { return new FltValue(d); }
  static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value Num(Value a) { return mk(num(a)); }
  public static Value FAdd(Value a, Value b) { return mk(num(a) + num(b)); }
  public static Value FSub(Value a, Value b) { return mk(num(a) - num(b)); }
  public static Value FMul(Value a, Value b) { return mk(num(a) * num(b)); }
  public static Value FDiv(Value a, Value b) { return mk(num(a) / num(b)); }
  public static Value FPow(Value a, Value b) { return mk(Math.pow(num(a), num(b))); }
  public static Value FNeg(Value a) { return mk(-num(a)); }
  public static Value Abs(Value a) { return mk(Math.abs(num(a))); }
  public static Value Sqrt(Value a) { return mk(Math.sqrt(num(a))); }
  public static Value Exp(Value a) { return mk(Math.exp(num(a))); }
  public static Value Ln(Value a) { return mk(Math.log(num(a))); }
  public static Value Sin(Value a) { return mk(Math.sin(num(a))); }
  public static Value Cos(Value a) { return mk(Math.cos(num(a))); }
  public static Value Tan(Value a) { return mk(Math.tan(num(a))); }
  public static Value Atan(Value a) { return mk(Math.atan(num(a))); }
  public static Value Atan2(Value a, Value b) { return mk(Math.atan2(num(a), num(b))); }
  public static Value MinF(Value a, Value b) { return mk(Math.min(num(a), num(b))); }
  public static Value MaxF(Value a, Value b) { return mk(Math.max(num(a), num(b))); }
  public static Value Lt(Value a, Value b) { return bool(num(a) < num(b)); }
  public static Value Le(Value a, Value b) { return bool(num(a) <= num(b)); }
  public static Value Gt(Value a, Value b) { return bool(num(a) > num(b)); }
  public static Value Ge(Value a, Value b) { return bool(num(a) >= num(b)); }
  public static Value Eq(Value a, Value b) { return bool(num(a) == num(b)); }
  public static Value IsFin(Value a) { double d = num(a); return bool(!Double.isNaN(d) && !Double.isInfinite(d)); }
  public static Value IsNum(Value a) {
    if (a instanceof FltValue || a instanceof IntValue) return BoolValue.ValTrue;
    if (a instanceof StringValue) { try { num(a); return BoolValue.ValTrue; } catch (RuntimeException e) { } }
    return BoolValue.ValFalse;
  }
  private static double[] nums(Value s) {
    TupleValue t = (TupleValue) s.toTuple();
    double[] r = new double[t.elems.length];
    for (int i = 0; i < r.length; i++) r[i] = num(t.elems[i]);
    return r;
  }
  public static Value SumSeq(Value s) { double a = 0; double[] x = nums(s); for (int i = x.length - 1; i >= 0; i--) a = x[i] + a; return mk(a); }
  public static Value MaxSeq(Value s) { double[] x = nums(s); double a = x[0]; for (double q : x) a = Math.max(a, q); return mk(a); }
  public static Value MinSeq(Value s) { double[] x = nums(s); double a = x[0]; for (double q : x) a = Math.min(a, q); return mk(a); }
  public static Value Sort(Value s) {
    double[] x = nums(s); java.util.Arrays.sort(x);
    Value[] r = new Value[x.length];
    for (int i = 0; i < r.length; i++) r[i] = mk(x[i]);
    return new TupleValue(r);
  }
  public static Value Floor(Value a) { return mk(Math.floor(num(a))); }
  /** round-half-even, as Python's round(). */
  public static Value Rint(Value a) { return mk(Math.rint(num(a))); }
  public static Value ToInt(Value a) { return IntValue.gen((int) num(a)); }
  public static Value Str(Value a) { return new StringValue(Double.toString(num(a))); }
  /** |a-b| <= rtol*max(|a|,|b|) + atol ; NaN is close to nothing. */
  public static Value Close(Value a, Value b, Value rtol, Value atol) {
    double x = num(a), y = num(b);
    if (x == y) return BoolValue.ValTrue;
    if (Double.isNaN(x) || Double.isNaN(y) || Double.isInfinite(x) || Double.isInfinite(y)) return BoolValue.ValFalse;
    return bool(Math.abs(x - y) <= num(rtol) * Math.max(Math.abs(x), Math.abs(y)) + num(atol));
  }
}
