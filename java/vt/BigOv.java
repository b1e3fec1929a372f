package vt;

import java.math.BigInteger;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** java.math.BigInteger versions of the arithmetic of spec/Big.tla (speed only). */
public class BigOv implements ITLCOverrides {
  static final long L16 = 10000L * 10000L * 10000L * 10000L;
  static final BigInteger B16 = BigInteger.valueOf(L16);

  static BigInteger toB(final Value v) {
    final Value t = v.toTuple();
    final Value[] e = ((TupleValue) t).elems;
    final int s = ((IntValue) e[0]).val;
    if (s == 0) return BigInteger.ZERO;
    final int n = e.length - 1;
    if (s != 1 && s != -1) throw new RuntimeException("Big: not a finite number");
    BigInteger r = BigInteger.ZERO;
    for (int c = (n + 3) / 4 - 1; c >= 0; c--) {
      long a = 0;
      for (int k = Math.min(n, c * 4 + 4); k > c * 4; k--) a = a * 10000 + ((IntValue) e[k]).val;
      r = r.signum() == 0 ? BigInteger.valueOf(a) : r.multiply(B16).add(BigInteger.valueOf(a));
    }
    return s < 0 ? r.negate() : r;
  }

  static Value fromB(BigInteger b) {
    final int s = b.signum();
    if (s == 0) return new TupleValue(new Value[] {IntValue.gen(0)});
    b = b.abs();
    final java.util.ArrayList<Value> l = new java.util.ArrayList<>(12);
    l.add(IntValue.gen(s));
    while (b.signum() != 0) {
      if (b.bitLength() <= 62) {
        long a = b.longValue();
        while (a != 0) { l.add(IntValue.gen((int) (a % 10000))); a /= 10000; }
        break;
      }
      final BigInteger[] qr = b.divideAndRemainder(B16);
      long a = qr[1].longValue();
      for (int k = 0; k < 4; k++) { l.add(IntValue.gen((int) (a % 10000))); a /= 10000; }
      b = qr[0];
    }
    return new TupleValue(l.toArray(new Value[0]));
  }

  @TLAPlusOperator(identifier = "BAdd", module = "Big", warn = false)
  public static Value BAdd(final Value a, final Value b) { return fromB(toB(a).add(toB(b))); }

  @TLAPlusOperator(identifier = "BSub", module = "Big", warn = false)
  public static Value BSub(final Value a, final Value b) { return fromB(toB(a).subtract(toB(b))); }

  @TLAPlusOperator(identifier = "BMul", module = "Big", warn = false)
  public static Value BMul(final Value a, final Value b) { return fromB(toB(a).multiply(toB(b))); }

  @TLAPlusOperator(identifier = "BDivT", module = "Big", warn = false)
  public static Value BDivT(final Value a, final Value b) { return fromB(toB(a).divide(toB(b))); }

  @TLAPlusOperator(identifier = "BSqrt", module = "Big", warn = false)
  public static Value BSqrt(final Value a) {
    final BigInteger x = toB(a);
    return fromB(x.signum() <= 0 ? BigInteger.ZERO : x.sqrt());
  }

  @TLAPlusOperator(identifier = "BCmp", module = "Big", warn = false)
  public static Value BCmp(final Value a, final Value b) { return IntValue.gen(toB(a).compareTo(toB(b))); }

  @SuppressWarnings("rawtypes")
  public Class[] get() { return new Class[] {BigOv.class}; }
}
