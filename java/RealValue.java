import java.math.BigDecimal;
import tlc2.tool.FingerprintException;
import tlc2.util.FP64;
import tlc2.value.IValue;
import tlc2.value.IMVPerm;
import tlc2.value.IValueOutputStream;
import tlc2.value.impl.Value;
import tlc2.value.impl.ValueExcept;
import util.Assert;

/** A real number of the specification (40 significant digits). */
public final class RealValue extends Value {
  public final BigDecimal v;
  public RealValue(final BigDecimal v) { this.v = v; }
  @Override public byte getKind() { return USERVALUE; }
  @Override public int compareTo(final Object o) {
    if (o instanceof RealValue) return v.compareTo(((RealValue) o).v);
    Assert.fail("Attempted to compare a real with " + o); return 0;
  }
  @Override public boolean equals(final Object o) {
    if (o instanceof RealValue) return v.compareTo(((RealValue) o).v) == 0;
    Assert.fail("Attempted to compare a real for equality with " + o); return false;
  }
  @Override public boolean member(final Value e) { Assert.fail("a real is not a set"); return false; }
  @Override public boolean isFinite() { Assert.fail("a real is not a set"); return false; }
  @Override public Value takeExcept(final ValueExcept ex) {
    if (ex.idx < ex.path.length) Assert.fail("EXCEPT path through a real");
    return ex.value;
  }
  @Override public Value takeExcept(final ValueExcept[] exs) {
    Value r = this;
    for (final ValueExcept ex : exs) r = takeExcept(ex);
    return r;
  }
  @Override public int size() { Assert.fail("a real has no size"); return 0; }
  @Override public boolean isNormalized() { return true; }
  @Override public Value normalize() { return this; }
  @Override public boolean isDefined() { return true; }
  @Override public IValue deepCopy() { return this; }
  @Override public long fingerPrint(long fp) { return FP64.Extend(fp, v.stripTrailingZeros().toString()); }
  @Override public IValue permute(final IMVPerm p) { return this; }
  @Override public boolean mutates() { return false; }
  @Override public StringBuffer toString(final StringBuffer sb, final int o, final boolean sw) {
    return sb.append(v.round(new java.math.MathContext(20)).toString());
  }
}
