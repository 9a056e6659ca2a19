import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.Value;
import util.Assert;

/** TLC override of module Num: real arithmetic to 40 significant digits. */
public class Num {
  static final MathContext MC = new MathContext(40, RoundingMode.HALF_EVEN);
  static final MathContext WC = new MathContext(60, RoundingMode.HALF_EVEN);
  static final MathContext XC = new MathContext(110, RoundingMode.HALF_EVEN);
  static BigDecimal b(final Value x) {
    if (x instanceof RealValue) return ((RealValue) x).v;
    if (x instanceof IntValue) return BigDecimal.valueOf(((IntValue) x).val);
    Assert.fail("Expected a real number, got " + x); return null;
  }
  static Value r(final BigDecimal x) { return new RealValue(x.round(MC)); }
  static Value bool(final boolean t) { return t ? BoolValue.ValTrue : BoolValue.ValFalse; }

  /** does the string denote a finite number? */
  public static Value IsReal(final Value s) {
    if (!(s instanceof StringValue)) return BoolValue.ValFalse;
    try { new BigDecimal(((StringValue) s).val.toString()); return BoolValue.ValTrue; }
    catch (NumberFormatException e) { return BoolValue.ValFalse; }
  }
  public static Value R(final Value s) {
    if (s instanceof IntValue || s instanceof RealValue) return r(b(s));
    if (s instanceof StringValue) {
      try { return r(new BigDecimal(((StringValue) s).val.toString())); }
      catch (NumberFormatException e) { /* below */ }
    }
    Assert.fail("Not a numeral: " + s); return null;
  }
  public static Value RAdd(final Value x, final Value y) { return r(b(x).add(b(y))); }
  public static Value RSub(final Value x, final Value y) { return r(b(x).subtract(b(y))); }
  public static Value RMul(final Value x, final Value y) { return r(b(x).multiply(b(y))); }
  public static Value RDiv(final Value x, final Value y) {
    if (b(y).signum() == 0) Assert.fail("Division by zero");
    return r(b(x).divide(b(y), MC));
  }
  public static Value RLe(final Value x, final Value y) { return bool(b(x).compareTo(b(y)) <= 0); }
  public static Value RLt(final Value x, final Value y) { return bool(b(x).compareTo(b(y)) < 0); }
  public static Value RExp(final Value x) { return r(exp(b(x), WC)); }
  public static Value RLn(final Value x) {
    if (b(x).signum() <= 0) Assert.fail("Ln of a non-positive number");
    return r(ln(b(x)));
  }
  public static Value RSqrt(final Value x) {
    if (b(x).signum() < 0) Assert.fail("Sqrt of a negative number");
    return r(b(x).sqrt(WC));
  }
  /** standard normal distribution function */
  public static Value RPhi(final Value x) { return r(phi(b(x))); }
  /** the quantile function: the x with RPhi(x) = p */
  public static Value RPhiInv(final Value v) {
    final BigDecimal p = b(v);
    if (p.signum() <= 0 || p.compareTo(BigDecimal.ONE) >= 0) Assert.fail("PhiInv outside (0, 1)");
    BigDecimal lo = BigDecimal.valueOf(-40), hi = BigDecimal.valueOf(40), x = BigDecimal.ZERO;
    for (int k = 0; k < 40; k++) {
      x = lo.add(hi).divide(BigDecimal.valueOf(2));
      if (phi(x).compareTo(p) < 0) lo = x; else hi = x;
    }
    for (int k = 0; k < 3; k++) {
      final BigDecimal dens = exp(x.multiply(x, XC).negate().divide(BigDecimal.valueOf(2)), XC).divide(SQRT2PI, XC);
      x = x.subtract(phi(x).subtract(p, XC).divide(dens, XC), XCH);
    }
    return r(x);
  }
  static Value[] elems(final Value s) {
    final Value t = s.toTuple();
    if (t == null) Assert.fail("Expected a sequence of reals, got " + s);
    return ((tlc2.value.impl.TupleValue) t).elems;
  }
  public static Value RSum(final Value s) {
    BigDecimal acc = BigDecimal.ZERO;
    for (final Value x : elems(s)) acc = acc.add(b(x), WC);
    return r(acc);
  }
  public static Value Dot(final Value s, final Value t) {
    final Value[] a = elems(s), c = elems(t);
    if (a.length != c.length) Assert.fail("Dot of sequences of different length");
    BigDecimal acc = BigDecimal.ZERO;
    for (int i = 0; i < a.length; i++) acc = acc.add(b(a[i]).multiply(b(c[i])), WC);
    return r(acc);
  }
  public static Value RFloor(final Value x) {
    return IntValue.gen(b(x).setScale(0, RoundingMode.FLOOR).intValueExact());
  }

  static BigDecimal exp(BigDecimal x, final MathContext mc) {
    if (x.signum() == 0) return BigDecimal.ONE;
    if (x.compareTo(new BigDecimal("-100000000")) < 0) return new BigDecimal("1e-43000000");
    if (x.compareTo(new BigDecimal("100000000")) > 0) Assert.fail("Exp overflow");
    final MathContext w = new MathContext(mc.getPrecision() + 20, RoundingMode.HALF_EVEN);
    // x = n ln2 + f ; exp(x) = 2^n exp(f);   exp(f) = exp(f/2^8)^(2^8)
    final int n = x.divide(LN2, w).setScale(0, RoundingMode.HALF_EVEN).intValueExact();
    BigDecimal f = x.subtract(LN2.multiply(BigDecimal.valueOf(n)), w);
    f = f.divide(BigDecimal.valueOf(256), w);
    BigDecimal sum = BigDecimal.ONE, term = BigDecimal.ONE;
    for (int k = 1; k < 200; k++) {
      term = term.multiply(f, w).divide(BigDecimal.valueOf(k), w);
      if (term.signum() == 0) break;
      sum = sum.add(term, w);
      if (term.precision() - term.scale() < -w.getPrecision()) break;
    }
    for (int k = 0; k < 8; k++) sum = sum.multiply(sum, w);
    final BigDecimal two = BigDecimal.valueOf(2);
    return (n >= 0 ? sum.multiply(two.pow(n, w), w) : sum.divide(two.pow(-n, w), w)).round(mc);
  }
  static final BigDecimal LN2 = ln2();
  static BigDecimal ln2() { // 2 atanh(1/3)
    final MathContext w = new MathContext(140);
    BigDecimal s = BigDecimal.ZERO, t = BigDecimal.ONE.divide(BigDecimal.valueOf(3), w);
    final BigDecimal nine = BigDecimal.valueOf(9);
    for (int k = 1; k < 400; k += 2) { s = s.add(t.divide(BigDecimal.valueOf(k), w), w); t = t.divide(nine, w); }
    return s.multiply(BigDecimal.valueOf(2), w);
  }
  static BigDecimal ln(final BigDecimal x) {
    // scale to m * 10^e with m in [0.1, 10): start from double, Newton y += 2 (x - e^y)/(x + e^y)
    final int e = x.precision() - x.scale() - 1;
    final BigDecimal m = x.scaleByPowerOfTen(-e);
    BigDecimal y = new BigDecimal(Math.log(m.doubleValue()));
    for (int k = 0; k < 3; k++) {
      final BigDecimal ey = exp(y, XCH);
      y = y.add(m.subtract(ey, XCH).multiply(BigDecimal.valueOf(2)).divide(m.add(ey, XCH), XCH), XCH);
    }
    return y.add(LN10.multiply(BigDecimal.valueOf(e)), XCH);
  }
  static final MathContext XCH = new MathContext(75, RoundingMode.HALF_EVEN);
  static final BigDecimal LN10 = ln10();
  static BigDecimal ln10() { // ln10 = 3 ln2 + ln(1.25), ln(1.25) = 2 atanh(1/9)
    final MathContext w = new MathContext(140);
    BigDecimal s = BigDecimal.ZERO, t = BigDecimal.ONE.divide(BigDecimal.valueOf(9), w);
    final BigDecimal q = BigDecimal.valueOf(81);
    for (int k = 1; k < 300; k += 2) { s = s.add(t.divide(BigDecimal.valueOf(k), w), w); t = t.divide(q, w); }
    return s.multiply(BigDecimal.valueOf(2)).add(LN2.multiply(BigDecimal.valueOf(3)), w);
  }
  static final BigDecimal SQRT2PI = new BigDecimal(
    "2.50662827463100050241576528481104525300698674060993831662992357634229365460784197494659583837805726611600997");
  static BigDecimal phi(final BigDecimal x) {
    if (x.signum() < 0) return phiUpper(x.negate());
    return BigDecimal.ONE.subtract(phiUpper(x));
  }
  /** P(Z > x) for x >= 0 */
  static BigDecimal phiUpper(final BigDecimal x) {
    final BigDecimal x2 = x.multiply(x, XC);
    final BigDecimal dens = exp(x2.negate().divide(BigDecimal.valueOf(2)), XC).divide(SQRT2PI, XC);
    if (x.compareTo(BigDecimal.valueOf(9)) <= 0) {
      BigDecimal t = x, s = x;
      for (int k = 3; k < 2000; k += 2) {
        t = t.multiply(x2, XC).divide(BigDecimal.valueOf(k), XC);
        s = s.add(t, XC);
        if (t.signum() == 0 || t.precision() - t.scale() < -100) break;
      }
      return new BigDecimal("0.5").subtract(dens.multiply(s, XC));
    }
    // continued fraction  dens/(x + 1/(x + 2/(x + 3/(...))))
    BigDecimal c = x;
    for (int k = 400; k >= 1; k--) c = x.add(BigDecimal.valueOf(k).divide(c, XC), XC);
    return dens.divide(c, XC);
  }
}
