import tlc2.value.impl.*;
import tlc2.value.*;
import tlc2.util.FP64;

/** An IEEE-754 double as a first-class TLC value. */
public final class FltValue extends Value {
  public final double v;
  public FltValue(double v) { this.v = v; }
  @Override public byte getKind() { return 29; }
  @Override public int compareTo(Object o) {
    if (o instanceof Value) return Double.compare(v, Flt.num((Value) o));
    return -1;
  }
  @Override public boolean equals(Object o) {
    if (!(o instanceof Value)) return false;
    try {
      return Double.compare(v, Flt.num((Value) o)) == 0;
    } catch (NumberFormatException e) {  // a string that is no number
      return false;
    }
  }
  @Override public boolean member(Value e) { throw new RuntimeException("member of a number"); }
  @Override public Value takeExcept(ValueExcept e) { throw new RuntimeException("EXCEPT on a number"); }
  @Override public Value takeExcept(ValueExcept[] e) { throw new RuntimeException("EXCEPT on a number"); }
  @Override public Value normalize() { return this; }
  @Override public boolean isNormalized() { return true; }
  @Override public void deepNormalize() { }
  @Override public boolean isFinite() { return true; }
  @Override public int size() { return 1; }
  @Override public boolean isDefined() { return true; }
  @Override public IValue deepCopy() { return this; }
  @Override public long fingerPrint(long fp) {
    return FP64.Extend(fp, Double.toString(v));
  }
  @Override public IValue permute(IMVPerm p) { return this; }
  @Override public StringBuffer toString(StringBuffer sb, int off, boolean sw) {
    return sb.append('"').append(v).append('"');
  }
}
