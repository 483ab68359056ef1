import java.math.*;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.impl.*;
import tlc2.value.IValue;
import util.UniqueString;

/** Executes the operators of Num.tla: rationals as canonical strings, BigInteger underneath. */
public class Num {
  static final int DIG = 80;
  static final MathContext MC = new MathContext(DIG + 10, RoundingMode.HALF_EVEN);

  static final class Q {
    final BigInteger n, d;
    Q(BigInteger n, BigInteger d) {
      if (d.signum() == 0) throw new ArithmeticException("Num: division by zero");
      if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
      if (!d.equals(BigInteger.ONE)) {
        BigInteger g = n.gcd(d);
        if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
      }
      this.n = n; this.d = d;
    }
    Q(BigInteger n) { this.n = n; this.d = BigInteger.ONE; }
    public String toString() { return d.equals(BigInteger.ONE) ? n.toString() : n + "/" + d; }
    Q add(Q o) { return d.equals(o.d) ? new Q(n.add(o.n), d) : new Q(n.multiply(o.d).add(o.n.multiply(d)), d.multiply(o.d)); }
    Q neg() { return new Q(n.negate(), d); }
    Q sub(Q o) { return add(o.neg()); }
    Q mul(Q o) { return new Q(n.multiply(o.n), d.multiply(o.d)); }
    Q div(Q o) { return new Q(n.multiply(o.d), d.multiply(o.n)); }
    Q abs() { return n.signum() < 0 ? neg() : this; }
    int cmp(Q o) { return n.multiply(o.d).compareTo(o.n.multiply(d)); }
    BigDecimal dec() { return new BigDecimal(n).divide(new BigDecimal(d), MC); }
  }
  static final BigInteger TWO = BigInteger.valueOf(2);
  static final Q ZERO = new Q(BigInteger.ZERO);

  static Q parse(String s) {
    int c = s.indexOf(':');
    if (c >= 0) {
      BigInteger m = new BigInteger(s.substring(0, c));
      int e = Integer.parseInt(s.substring(c + 1));
      return e >= 0 ? new Q(m.shiftLeft(e)) : new Q(m, BigInteger.ONE.shiftLeft(-e));
    }
    c = s.indexOf('/');
    if (c >= 0) return new Q(new BigInteger(s.substring(0, c)), new BigInteger(s.substring(c + 1)));
    if (s.indexOf('.') >= 0 || s.indexOf('e') >= 0 || s.indexOf('E') >= 0) return ofDec(new BigDecimal(s));
    return new Q(new BigInteger(s));
  }
  static Q ofDec(BigDecimal x) {
    return x.scale() >= 0 ? new Q(x.unscaledValue(), BigInteger.TEN.pow(x.scale()))
                          : new Q(x.unscaledValue().multiply(BigInteger.TEN.pow(-x.scale())));
  }
  static String str(Value v) { return ((StringValue) v).val.toString(); }
  /** null stands for "not a number": NaN, inf, -inf and whatever is computed from them. */
  static boolean non(String t) { return t.equals("NaN") || t.equals("inf") || t.equals("-inf"); }
  static Q q(Value v) { String t = str(v); return non(t) ? null : parse(t); }
  static final Value NAN = new StringValue("NaN");
  static Value v(Q x) { return x == null ? NAN : new StringValue(x.toString()); }
  interface Op2 { Q f(Q x, Q y); }
  static Value op(Value a, Value b, Op2 f) { Q x = q(a), y = q(b); return x == null || y == null ? NAN : v(f.f(x, y)); }
  static Value v(BigDecimal x) { return v(ofDec(x.round(new MathContext(DIG)).stripTrailingZeros())); }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static Value[] seq(Value s) {
    TupleValue t = (TupleValue) s.toTuple();
    if (t == null) throw new IllegalArgumentException("Num: sequence expected, got " + s);
    return t.elems;
  }

  public static Value RInt(Value i) { return new StringValue(Integer.toString(((IntValue) i).val)); }
  public static Value RParse(Value s) {
    String t = str(s);
    if (non(t)) return s;
    return v(parse(t));
  }
  public static Value IsFin(Value s) { return b(!non(str(s))); }
  public static Value IsNum(Value s) {
    if (!(s instanceof StringValue)) return b(false);
    try { return b(q(s) != null); } catch (RuntimeException e) { return b(false); }
  }
  public static Value RFloor(Value a) { Q x = q(a); if (x == null) return NAN; BigInteger[] qr = x.n.divideAndRemainder(x.d); return v(new Q(qr[1].signum() < 0 ? qr[0].subtract(BigInteger.ONE) : qr[0])); }
  public static Value RIsInt(Value a) { Q x = q(a); return b(x != null && x.d.equals(BigInteger.ONE)); }
  public static Value RFits(Value a) { Q x = q(a); return b(x != null && x.d.equals(BigInteger.ONE) && x.n.bitLength() < 31); }
  public static Value RToInt(Value a) { Q x = q(a); if (!x.d.equals(BigInteger.ONE)) throw new ArithmeticException("Num: not an integer"); return IntValue.gen(x.n.intValueExact()); }
  public static Value RAdd(Value a, Value b) { return op(a, b, (x, y) -> x.add(y)); }
  public static Value RSub(Value a, Value b) { return op(a, b, (x, y) -> x.sub(y)); }
  public static Value RMul(Value a, Value b) { return op(a, b, (x, y) -> x.mul(y)); }
  public static Value RDiv(Value a, Value b) { return op(a, b, (x, y) -> y.n.signum() == 0 ? null : x.div(y)); }
  public static Value RNeg(Value a) { Q x = q(a); return x == null ? NAN : v(x.neg()); }
  public static Value RAbs(Value a) { Q x = q(a); return x == null ? NAN : v(x.abs()); }
  public static Value RMax(Value a, Value b) { return op(a, b, (x, y) -> x.cmp(y) >= 0 ? x : y); }
  public static Value RMin(Value a, Value b) { return op(a, b, (x, y) -> x.cmp(y) <= 0 ? x : y); }
  /** 2 when one of them is no number and they differ */
  public static Value RCmp(Value a, Value b) {
    Q x = q(a), y = q(b);
    return IntValue.gen(x == null || y == null ? (str(a).equals(str(b)) ? 0 : 2) : Integer.signum(x.cmp(y)));
  }
  public static Value RLe(Value a, Value b) { Q x = q(a), y = q(b); return b(x != null && y != null && x.cmp(y) <= 0); }
  public static Value RLt(Value a, Value b) { Q x = q(a), y = q(b); return b(x != null && y != null && x.cmp(y) < 0); }
  public static Value RSum(Value s) { Q x = ZERO; for (Value e : seq(s)) { Q y = q(e); if (y == null) return NAN; x = x.add(y); } return v(x); }
  public static Value RSumSq(Value s) { Q x = ZERO; for (Value e : seq(s)) { Q y = q(e); if (y == null) return NAN; x = x.add(y.mul(y)); } return v(x); }
  public static Value RTally(Value s) {
    java.util.LinkedHashMap<String, Value> keys = new java.util.LinkedHashMap<>();
    java.util.HashMap<String, Q> sums = new java.util.HashMap<>();
    for (Value e : seq(s)) {
      Value[] kw = seq(e);
      String k = kw[0].toString();
      keys.putIfAbsent(k, kw[0]);
      sums.merge(k, q(kw[1]), Q::add);
    }
    Value[] r = new Value[keys.size()];
    int i = 0;
    for (java.util.Map.Entry<String, Value> e : keys.entrySet())
      r[i++] = new TupleValue(new Value[] { e.getValue(), v(sums.get(e.getKey())) });
    return new TupleValue(r);
  }
  static Value fun(java.util.HashMap<String, Value[]> m) {
    Value[][] kv = m.values().toArray(new Value[0][]);
    java.util.Arrays.sort(kv, (a, b) -> a[0].compareTo(b[0]));
    Value[] d = new Value[kv.length], r = new Value[kv.length];
    for (int i = 0; i < d.length; i++) { d[i] = kv[i][0]; r[i] = kv[i][1]; }
    return new FcnRcdValue(d, r, true);
  }
  // the keys are strings
  public static Value FunOf(Value s) {
    java.util.HashMap<String, Value[]> m = new java.util.HashMap<>();
    for (Value e : seq(s)) {
      Value[] kv = seq(e);
      m.putIfAbsent(str(kv[0]), new Value[] { kv[0], kv[1] });
    }
    return fun(m);
  }
  public static Value Fun2Of(Value s) {
    java.util.HashMap<String, java.util.HashMap<String, Value[]>> m = new java.util.HashMap<>();
    java.util.HashMap<String, Value> keys = new java.util.HashMap<>();
    for (Value e : seq(s)) {
      Value[] t = seq(e);
      keys.putIfAbsent(str(t[0]), t[0]);
      m.computeIfAbsent(str(t[0]), x -> new java.util.HashMap<>()).putIfAbsent(str(t[1]), new Value[] { t[1], t[2] });
    }
    java.util.HashMap<String, Value[]> f = new java.util.HashMap<>();
    for (java.util.Map.Entry<String, Value> e : keys.entrySet()) f.put(e.getKey(), new Value[] { e.getValue(), fun(m.get(e.getKey())) });
    return fun(f);
  }
  public static Value RMaxAbs(Value s) { Q x = ZERO; for (Value e : seq(s)) { Q y = q(e); if (y == null) return NAN; y = y.abs(); if (y.cmp(x) > 0) x = y; } return v(x); }
  public static Value RPow2(Value a) {
    int e = q(a).n.intValueExact();
    return v(e >= 0 ? new Q(BigInteger.ONE.shiftLeft(e)) : new Q(BigInteger.ONE, BigInteger.ONE.shiftLeft(-e)));
  }
  public static Value RIPow(Value a, Value n) { Q x = q(a); int k = ((IntValue) n).val; return v(new Q(x.n.pow(k), x.d.pow(k))); }
  public static Value RRnd(Value a) {
    Q x = q(a);
    if (x == null) return NAN;
    // kept when small; otherwise decimal, so that denominators of sums do not multiply up
    if (x.n.bitLength() < 270 && (x.d.bitLength() < 64 || x.d.bitLength() < 270 && x.d.bitCount() == 1)) return v(x);
    return v(x.dec());
  }
  public static Value RSqrt(Value a) {
    Q x = q(a);
    if (x == null || x.n.signum() < 0) return NAN;
    BigInteger[] rn = x.n.sqrtAndRemainder(), rd = x.d.sqrtAndRemainder();
    if (rn[1].signum() == 0 && rd[1].signum() == 0) return v(new Q(rn[0], rd[0]));
    return v(x.dec().sqrt(MC));
  }

  static BigDecimal PI, LN2;
  static BigDecimal atanSmall(BigDecimal x) {       // Taylor series, |x| small
    BigDecimal x2 = x.multiply(x, MC).negate(), t = x, s = x;
    BigDecimal eps = BigDecimal.ONE.scaleByPowerOfTen(-(DIG + 8));
    for (int k = 3; ; k += 2) {
      t = t.multiply(x2, MC);
      BigDecimal u = t.divide(BigDecimal.valueOf(k), MC);
      if (u.abs().compareTo(eps.multiply(x.abs(), MC)) <= 0) return s;
      s = s.add(u, MC);
    }
  }
  static synchronized BigDecimal pi() {
    if (PI == null) PI = BigDecimal.valueOf(16).multiply(atanSmall(BigDecimal.ONE.divide(BigDecimal.valueOf(5), MC)), MC)
        .subtract(BigDecimal.valueOf(4).multiply(atanSmall(BigDecimal.ONE.divide(BigDecimal.valueOf(239), MC)), MC), MC);
    return PI;
  }
  static BigDecimal atan(BigDecimal x) {
    if (x.signum() == 0) return x;
    if (x.signum() < 0) return atan(x.negate()).negate();
    if (x.compareTo(BigDecimal.ONE) > 0) return pi().divide(BigDecimal.valueOf(2), MC).subtract(atan(BigDecimal.ONE.divide(x, MC)), MC);
    int k = 0;
    BigDecimal lim = new BigDecimal("0.05");
    while (x.compareTo(lim) > 0) {
      x = x.divide(BigDecimal.ONE.add(BigDecimal.ONE.add(x.multiply(x, MC), MC).sqrt(MC), MC), MC);
      k++;
    }
    return atanSmall(x).multiply(BigDecimal.valueOf(1L << k), MC);
  }
  static BigDecimal atanhSmall(BigDecimal x) {
    BigDecimal x2 = x.multiply(x, MC), t = x, s = x;
    BigDecimal eps = BigDecimal.ONE.scaleByPowerOfTen(-(DIG + 8));
    for (int k = 3; ; k += 2) {
      t = t.multiply(x2, MC);
      BigDecimal u = t.divide(BigDecimal.valueOf(k), MC);
      if (u.abs().compareTo(eps.multiply(x.abs(), MC)) <= 0) return s;
      s = s.add(u, MC);
    }
  }
  static BigDecimal ln(BigDecimal x) {             // x in (1/2, 2]
    if (x.compareTo(BigDecimal.ONE) == 0) return BigDecimal.ZERO;
    return atanhSmall(x.subtract(BigDecimal.ONE).divide(x.add(BigDecimal.ONE), MC)).multiply(BigDecimal.valueOf(2), MC);
  }
  static synchronized BigDecimal ln2() {
    if (LN2 == null) LN2 = ln(BigDecimal.valueOf(2));
    return LN2;
  }
  static final ConcurrentHashMap<String, Value> LOGS = new ConcurrentHashMap<>();
  public static Value RLog2(Value a) {
    return LOGS.computeIfAbsent(str(a), k -> {
      Q x = parse(k);
      if (x.n.signum() <= 0) throw new ArithmeticException("Num: log of a non-positive number");
      BigInteger n = x.n, d = x.d;
      int e = n.bitLength() - d.bitLength();
      Q y = e >= 0 ? new Q(n, d.shiftLeft(e)) : new Q(n.shiftLeft(-e), d);     // in (1/2, 2)
      if (y.n.equals(y.d)) return v(new Q(BigInteger.valueOf(e)));
      return v(BigDecimal.valueOf(e).add(ln(y.dec()).divide(ln2(), MC), MC));
    });
  }
  public static Value RAtan(Value a) { Q x = q(a); return x == null ? NAN : v(atan(x.dec())); }
  public static Value RPi() { return v(pi()); }
  static Q exact(double x) { return ofDec(new BigDecimal(x)); }
  public static Value RNearest(Value a) {
    // Double.parseDouble is correctly rounded; a 1100-digit decimal expansion of a rational with a
    // power-of-ten denominator is exact, which covers every decimal literal the specification reads.
    Q x = q(a);
    if (x == null) return a;
    BigDecimal t;
    try { t = new BigDecimal(x.n).divide(new BigDecimal(x.d)); }
    catch (ArithmeticException e) { t = new BigDecimal(x.n).divide(new BigDecimal(x.d), new MathContext(1200, RoundingMode.HALF_EVEN)); }
    double y = Double.parseDouble(t.toString());
    if (Double.isInfinite(y)) return new StringValue(y > 0 ? "inf" : "-inf");
    return v(exact(y));
  }
  public static Value RClose(Value a, Value b, Value rel, Value abs) {
    Q x = q(a), y = q(b), r = q(rel), s = q(abs);
    if (x == null || y == null || r == null || s == null) return b(false);
    Q dif = x.sub(y).abs();
    Q m = x.abs().cmp(y.abs()) >= 0 ? x.abs() : y.abs();
    return b(dif.cmp(s.add(r.mul(m))) <= 0);
  }

  public static Value Chars(Value s) {
    int[] cp = str(s).codePoints().toArray();
    Value[] r = new Value[cp.length];
    for (int i = 0; i < cp.length; i++) r[i] = IntValue.gen(cp[i]);
    return new TupleValue(r);
  }
  public static Value StrOf(Value s) {
    StringBuilder sb = new StringBuilder();
    for (Value e : seq(s)) sb.appendCodePoint(((IntValue) e).val);
    return new StringValue(sb.toString());
  }
  static int cmp(String s, String t) {
    int[] a = s.codePoints().toArray(), b = t.codePoints().toArray();
    for (int i = 0; i < a.length && i < b.length; i++) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
    return Integer.compare(a.length, b.length);
  }
  // the strings of a sequence in ascending order: by code point, or as numbers
  public static Value SortStr(Value s, Value numeric) {
    Value[] r = seq(s).clone();
    if (((BoolValue) numeric).val) {
      java.util.IdentityHashMap<Value, Q> m = new java.util.IdentityHashMap<>();
      for (Value e : r) if (m.put(e, q(e)) == null && q(e) == null) throw new ArithmeticException("Num: not a number");
      java.util.Arrays.sort(r, (x, y) -> m.get(x).cmp(m.get(y)));
    } else java.util.Arrays.sort(r, (x, y) -> cmp(str(x), str(y)));
    return new TupleValue(r);
  }
  public static Value StrCmp(Value s, Value t) { return IntValue.gen(cmp(str(s), str(t))); }
}
