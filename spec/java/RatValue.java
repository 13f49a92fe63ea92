import java.math.BigInteger;
import tlc2.tool.FingerprintException;
import tlc2.value.IMVPerm;
import tlc2.value.IValue;
import tlc2.value.impl.*;
import util.Assert;

/** An exact rational number as a TLC value: n / d with d > 0 and gcd(n, d) = 1. */
public final class RatValue extends Value implements Comparable<Object> {
  private static final long serialVersionUID = 1L;
  public final BigInteger n, d;
  static final BigInteger ONE = BigInteger.ONE, ZERO = BigInteger.ZERO;

  private RatValue(BigInteger n, BigInteger d) { this.n = n; this.d = d; }

  static boolean isPow2(BigInteger x) { return x.signum() > 0 && x.bitLength() - 1 == x.getLowestSetBit(); }

  public static RatValue of(BigInteger n, BigInteger d) {
    if (d.signum() == 0) Assert.fail("BigRat: division by zero");
    if (n.signum() == 0) return new RatValue(ZERO, ONE);
    if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
    if (d.equals(ONE)) return new RatValue(n, ONE);
    if (isPow2(d)) {
      int s = Math.min(n.getLowestSetBit(), d.bitLength() - 1);
      return s == 0 ? new RatValue(n, d) : new RatValue(n.shiftRight(s), d.shiftRight(s));
    }
    BigInteger g = n.gcd(d);
    return g.equals(ONE) ? new RatValue(n, d) : new RatValue(n.divide(g), d.divide(g));
  }
  public static RatValue of(long n) { return new RatValue(BigInteger.valueOf(n), ONE); }
  public static RatValue zero() { return new RatValue(ZERO, ONE); }

  public RatValue add(RatValue o) {
    if (d.equals(o.d)) return of(n.add(o.n), d);
    if (isPow2(d) && isPow2(o.d)) {
      int a = d.bitLength(), b = o.d.bitLength();
      return a >= b ? of(n.add(o.n.shiftLeft(a - b)), d) : of(n.shiftLeft(b - a).add(o.n), o.d);
    }
    return of(n.multiply(o.d).add(o.n.multiply(d)), d.multiply(o.d));
  }
  public RatValue neg() { return new RatValue(n.negate(), d); }
  public RatValue sub(RatValue o) { return add(o.neg()); }
  public RatValue mul(RatValue o) { return of(n.multiply(o.n), d.multiply(o.d)); }
  public RatValue div(RatValue o) { return of(n.multiply(o.d), d.multiply(o.n)); }
  public int cmp(RatValue o) {
    int s = n.signum(), t = o.n.signum();
    if (s != t) return s < t ? -1 : 1;
    return d.equals(o.d) ? n.compareTo(o.n) : n.multiply(o.d).compareTo(o.n.multiply(d));
  }
  /** nearest m * 2^e with |m| < 2^bits (half away from zero); identity when already representable */
  public RatValue round(int bits) {
    if (n.signum() == 0) return this;
    BigInteger a = n.abs();
    int e = a.bitLength() - d.bitLength() - bits;   // a/d ~ 2^(e+bits)
    if (isPow2(d) && a.bitLength() <= bits) return this;
    BigInteger num = e < 0 ? a.shiftLeft(-e) : a, den = e > 0 ? d.shiftLeft(e) : d;
    BigInteger m = num.shiftLeft(1).add(den).divide(den.shiftLeft(1));
    if (n.signum() < 0) m = m.negate();
    return e >= 0 ? of(m.shiftLeft(e), ONE) : of(m, ONE.shiftLeft(-e));
  }

  @Override public byte getKind() { return STRINGVALUE + 77; }
  @Override public String getKindString() { return "a rational"; }
  @Override public int compareTo(Object o) {
    if (o instanceof RatValue) return cmp((RatValue) o);
    if (o instanceof ModelValue) return ((ModelValue) o).modelValueCompareTo(this);
    Assert.fail("Attempted to compare rational " + this + " with " + o);
    return 0;
  }
  @Override public boolean equals(Object o) {
    if (o instanceof RatValue) return n.equals(((RatValue) o).n) && d.equals(((RatValue) o).d);
    if (o instanceof ModelValue) return ((ModelValue) o).modelValueEquals(this);
    Assert.fail("Attempted to check equality of rational " + this + " with " + o);
    return false;
  }
  @Override public boolean member(Value v) { Assert.fail("member of a rational"); return false; }
  @Override public boolean isFinite() { return true; }
  @Override public Value takeExcept(ValueExcept e) { Assert.fail("EXCEPT on a rational"); return null; }
  @Override public Value takeExcept(ValueExcept[] e) { Assert.fail("EXCEPT on a rational"); return null; }
  @Override public int size() { return 1; }
  @Override public boolean mutates() { return false; }
  @Override public boolean isNormalized() { return true; }
  @Override public Value normalize() { return this; }
  @Override public boolean isDefined() { return true; }
  @Override public IValue deepCopy() { return this; }
  public boolean assignable(Value v) { return v instanceof RatValue && equals(v); }
  @Override public long fingerPrint(long fp) { return new StringValue("rat:" + n + "/" + d).fingerPrint(fp); }
  @Override public IValue permute(IMVPerm p) { return this; }
  @Override public StringBuffer toString(StringBuffer sb, int off, boolean swallow) {
    return sb.append(n).append('/').append(d);
  }
}
