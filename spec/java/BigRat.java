import java.math.BigInteger;
import tlc2.value.impl.*;
import util.Assert;

/**
 * TLC implementation of the operators of module BigRat (exact rationals).
 * TLC replaces an operator of module BigRat by the static method of the same name and arity.
 */
public class BigRat {
  static RatValue r(Value v) {
    if (v instanceof RatValue) return (RatValue) v;
    if (v instanceof IntValue) return RatValue.of(((IntValue) v).val);
    if (v instanceof LazyValue || v instanceof EvaluatingValue) Assert.fail("BigRat: lazy operand");
    Assert.fail("BigRat: not a rational: " + v);
    return null;
  }
  static int i(Value v) {
    if (!(v instanceof IntValue)) Assert.fail("BigRat: not an integer: " + v);
    return ((IntValue) v).val;
  }
  static Value[] seq(Value v) {
    Value t = v.toTuple();
    if (t == null) Assert.fail("BigRat: not a sequence: " + v);
    return ((TupleValue) t).elems;
  }
  static BoolValue b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

  public static Value RI(Value n) { return RatValue.of(i(n)); }
  public static Value RQ(Value n, Value d) { return RatValue.of(BigInteger.valueOf(i(n)), BigInteger.valueOf(i(d))); }
  public static Value RAdd(Value x, Value y) { return r(x).add(r(y)); }
  public static Value RSub(Value x, Value y) { return r(x).sub(r(y)); }
  public static Value RMul(Value x, Value y) { return r(x).mul(r(y)); }
  public static Value RDiv(Value x, Value y) { return r(x).div(r(y)); }
  public static Value RNeg(Value x) { return r(x).neg(); }
  public static Value RAbs(Value x) { return r(x).n.signum() < 0 ? r(x).neg() : r(x); }
  public static Value RSign(Value x) { return IntValue.gen(r(x).n.signum()); }
  public static Value RLt(Value x, Value y) { return b(r(x).cmp(r(y)) < 0); }
  public static Value RLe(Value x, Value y) { return b(r(x).cmp(r(y)) <= 0); }
  public static Value RMax(Value x, Value y) { return r(x).cmp(r(y)) >= 0 ? r(x) : r(y); }
  public static Value RMin(Value x, Value y) { return r(x).cmp(r(y)) <= 0 ? r(x) : r(y); }
  public static Value RPow(Value x, Value k) {
    RatValue a = r(x); int e = i(k);
    if (e < 0) { a = RatValue.of(1).div(a); e = -e; }
    return RatValue.of(a.n.pow(e), a.d.pow(e));
  }
  public static Value RRound(Value x, Value bits) { return r(x).round(i(bits)); }
  public static Value RSum(Value s) {
    RatValue a = RatValue.zero();
    for (Value v : seq(s)) a = a.add(r(v));
    return a;
  }
  public static Value RProd(Value s) {
    RatValue a = RatValue.of(1);
    for (Value v : seq(s)) a = a.mul(r(v));
    return a;
  }
  static RatValue dot(Value[] x, Value[] y) {
    if (x.length != y.length) Assert.fail("BigRat: RDot of different lengths");
    RatValue a = RatValue.zero();
    for (int k = 0; k < x.length; k++) {
      RatValue p = r(x[k]);
      if (p.n.signum() != 0) a = a.add(p.mul(r(y[k])));
    }
    return a;
  }
  public static Value RDot(Value x, Value y) { return dot(seq(x), seq(y)); }
  public static Value RMaxAbs(Value s) {
    RatValue a = RatValue.zero();
    for (Value v : seq(s)) { RatValue p = (RatValue) RAbs(v); if (p.cmp(a) > 0) a = p; }
    return a;
  }
  /** largest multiple of 2^-bits whose square is <= x */
  public static Value RSqrtFloor(Value x, Value bits) {
    RatValue a = r(x); int k = i(bits);
    if (a.n.signum() < 0) Assert.fail("BigRat: square root of a negative rational");
    BigInteger m = a.n.shiftLeft(2 * k).divide(a.d).sqrt();
    return RatValue.of(m, BigInteger.ONE.shiftLeft(k));
  }
  /** largest integer <= x, as a rational */
  public static Value RFloor(Value x) {
    RatValue a = r(x);
    BigInteger[] q = a.n.divideAndRemainder(a.d);
    return RatValue.of(a.n.signum() < 0 && q[1].signum() != 0 ? q[0].subtract(BigInteger.ONE) : q[0], BigInteger.ONE);
  }
  public static Value RToInt(Value x) {
    RatValue a = r(x);
    if (!a.d.equals(BigInteger.ONE)) Assert.fail("BigRat: not an integer " + a);
    return IntValue.gen(a.n.intValueExact());
  }
  static RatValue limb(int hi, int lo, int e) {
    BigInteger m = BigInteger.valueOf((long) hi * (1L << 27) + lo);
    return e >= 0 ? RatValue.of(m.shiftLeft(e), BigInteger.ONE) : RatValue.of(m, BigInteger.ONE.shiftLeft(-e));
  }
  public static Value RLimb(Value hi, Value lo, Value e) { return limb(i(hi), i(lo), i(e)); }
  public static Value RVec(Value flat) {
    Value[] f = seq(flat);
    Value[] out = new Value[f.length / 3];
    for (int k = 0; k < out.length; k++) out[k] = limb(i(f[3 * k]), i(f[3 * k + 1]), i(f[3 * k + 2]));
    return new TupleValue(out);
  }
  public static Value RMatMul(Value a, Value bb) {
    Value[] x = seq(a), y = seq(bb);
    Value[][] yr = new Value[y.length][];
    for (int k = 0; k < y.length; k++) yr[k] = seq(y[k]);
    int m = y.length == 0 ? 0 : yr[0].length;
    Value[] out = new Value[x.length];
    for (int p = 0; p < x.length; p++) {
      Value[] xr = seq(x[p]), row = new Value[m];
      for (int q = 0; q < m; q++) {
        RatValue s = RatValue.zero();
        for (int k = 0; k < xr.length; k++) s = s.add(r(xr[k]).mul(r(yr[k][q])));
        row[q] = s;
      }
      out[p] = new TupleValue(row);
    }
    return new TupleValue(out);
  }
  /** product of two polynomials (coefficient sequences, constant term first) */
  public static Value RPolyMul(Value a, Value c) {
    Value[] x = seq(a), y = seq(c);
    RatValue[] z = new RatValue[x.length + y.length - 1];
    java.util.Arrays.fill(z, RatValue.zero());
    for (int p = 0; p < x.length; p++) for (int q = 0; q < y.length; q++) z[p + q] = z[p + q].add(r(x[p]).mul(r(y[q])));
    Value[] out = new Value[z.length];
    System.arraycopy(z, 0, out, 0, z.length);
    return new TupleValue(out);
  }
  public static Value RPolyEval(Value a, Value t) {
    Value[] x = seq(a); RatValue s = RatValue.zero(), u = r(t);
    for (int k = x.length - 1; k >= 0; k--) s = s.mul(u).add(r(x[k]));
    return s;
  }
  public static Value RDec(Value x) {
    RatValue a = r(x);
    return new StringValue(new java.math.BigDecimal(a.n).divide(new java.math.BigDecimal(a.d), new java.math.MathContext(17)).toString());
  }
}
