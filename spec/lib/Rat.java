// Java side of module Rat: exact rational arithmetic for TLC.
//
// A number is a TLA+ string: "n" or "n/d" in lowest terms with d > 1 (so TLA+ `=' on two
// numbers is numeric equality), or one of the IEEE leftovers "nan", "inf", "-inf".
// Nothing here knows about primate: it is the arithmetic TLC lacks (TLC integers are 32 bit).
import java.math.BigDecimal;
import java.math.BigInteger;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

public class Rat {
  static final class Q {
    final BigInteger n, d; final int k; // k: 0 finite, 1 nan, 2 +inf, 3 -inf
    Q(BigInteger n, BigInteger d) {
      if (d.signum() == 0) { this.n = null; this.d = null; this.k = n.signum() == 0 ? 1 : (n.signum() > 0 ? 2 : 3); return; }
      if (!d.equals(BigInteger.ONE)) {
        BigInteger g = n.gcd(d);
        if (d.signum() < 0) g = g.negate();
        if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
      }
      this.n = n; this.d = d; this.k = 0;
    }
    Q(int k) { this.n = null; this.d = null; this.k = k; }
    int sg() { return k == 0 ? n.signum() : (k == 2 ? 1 : (k == 3 ? -1 : 0)); }
  }
  static final Q NAN = new Q(1), PINF = new Q(2), NINF = new Q(3);
  static final Q ZERO = new Q(BigInteger.ZERO, BigInteger.ONE), ONE = new Q(BigInteger.ONE, BigInteger.ONE);
  static final ConcurrentHashMap<String, Q> cache = new ConcurrentHashMap<>();

  static Q parse(String s) {
    Q q = cache.get(s);
    if (q != null) return q;
    if (s.equals("nan")) return NAN;
    if (s.equals("inf")) return PINF;
    if (s.equals("-inf")) return NINF;
    int i = s.indexOf('/');
    try {
      q = i < 0 ? new Q(new BigInteger(s), BigInteger.ONE)
                : new Q(new BigInteger(s.substring(0, i)), new BigInteger(s.substring(i + 1)));
    } catch (NumberFormatException e) { throw new RuntimeException("Rat: not a number: " + s); }
    put(s, q);
    return q;
  }
  static void put(String s, Q q) { if (cache.size() > 400000) cache.clear(); cache.put(s, q); }
  static String str(Q q) {
    switch (q.k) { case 1: return "nan"; case 2: return "inf"; case 3: return "-inf"; default: }
    String s = q.d.equals(BigInteger.ONE) ? q.n.toString() : q.n.toString() + "/" + q.d.toString();
    put(s, q);
    return s;
  }
  static Q q(Value v) {
    if (v instanceof StringValue) return parse(((StringValue) v).val.toString());
    if (v instanceof IntValue) return new Q(BigInteger.valueOf(((IntValue) v).val), BigInteger.ONE);
    throw new RuntimeException("Rat: not a number: " + v);
  }
  static Value v(Q q) { return new StringValue(str(q)); }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static Value[] seq(Value s) {
    Value t = s.toTuple();
    if (t == null) throw new RuntimeException("Rat: not a sequence: " + s);
    return ((TupleValue) t).elems;
  }

  static Q add(Q a, Q c) {
    if (a.k == 0 && c.k == 0) {
      if (a.n.signum() == 0) return c;
      if (c.n.signum() == 0) return a;
      if (a.d.equals(c.d)) return new Q(a.n.add(c.n), a.d);
      return new Q(a.n.multiply(c.d).add(c.n.multiply(a.d)), a.d.multiply(c.d));
    }
    if (a.k == 1 || c.k == 1) return NAN;
    if (a.k == 0) return c;
    if (c.k == 0) return a;
    return a.k == c.k ? a : NAN;
  }
  static Q neg(Q a) { return a.k == 0 ? new Q(a.n.negate(), a.d) : (a.k == 1 ? a : (a.k == 2 ? NINF : PINF)); }
  static Q mul(Q a, Q c) {
    if (a.k == 0 && c.k == 0) return (a.n.signum() == 0 || c.n.signum() == 0) ? ZERO : new Q(a.n.multiply(c.n), a.d.multiply(c.d));
    if (a.k == 1 || c.k == 1) return NAN;
    int s = a.sg() * c.sg();
    return s == 0 ? NAN : (s > 0 ? PINF : NINF);
  }
  static Q div(Q a, Q c) {
    if (a.k == 0 && c.k == 0) return new Q(a.n.multiply(c.d), a.d.multiply(c.n));
    if (a.k == 1 || c.k == 1) return NAN;
    if (a.k == 0) return ZERO;
    if (c.k != 0) return NAN;
    return (c.n.signum() < 0) == (a.k == 2) ? NINF : PINF;
  }
  // -1, 0, 1, or 2 when unordered
  static int cmp(Q a, Q c) {
    if (a.k == 1 || c.k == 1) return 2;
    if (a.k == 0 && c.k == 0) return a.d.equals(c.d) ? a.n.compareTo(c.n) : a.n.multiply(c.d).compareTo(c.n.multiply(a.d));
    int x = a.k == 0 ? 0 : a.sg(), y = c.k == 0 ? 0 : c.sg();
    return Integer.compare(x, y);
  }

  public static Value RNum(Value a) { return v(q(a)); }
  public static Value RAdd(Value a, Value c) { return v(add(q(a), q(c))); }
  public static Value RSub(Value a, Value c) { return v(add(q(a), neg(q(c)))); }
  public static Value RMul(Value a, Value c) { return v(mul(q(a), q(c))); }
  public static Value RDiv(Value a, Value c) { return v(div(q(a), q(c))); }
  public static Value RNeg(Value a) { return v(neg(q(a))); }
  public static Value RAbs(Value a) { Q x = q(a); return v(x.sg() < 0 ? neg(x) : x); }
  public static Value RLt(Value a, Value c) { return b(cmp(q(a), q(c)) == -1); }
  public static Value RLe(Value a, Value c) { int x = cmp(q(a), q(c)); return b(x == -1 || x == 0); }
  public static Value REq(Value a, Value c) { return b(cmp(q(a), q(c)) == 0); }
  public static Value RSign(Value a) { return IntValue.gen(q(a).sg()); }
  public static Value RFinite(Value a) { return b(q(a).k == 0); }
  public static Value RIsNum(Value a) {
    if (a instanceof IntValue) return b(true);
    if (!(a instanceof StringValue)) return b(false);
    try { parse(((StringValue) a).val.toString()); return b(true); } catch (RuntimeException e) { return b(false); }
  }
  public static Value RFloor(Value a) {
    Q x = q(a);
    if (x.k != 0) return v(x);
    BigInteger[] r = x.n.divideAndRemainder(x.d);
    return v(new Q(r[1].signum() < 0 ? r[0].subtract(BigInteger.ONE) : r[0], BigInteger.ONE));
  }
  public static Value RToInt(Value a) { return IntValue.gen(q(a).n.divide(q(a).d).intValueExact()); }
  public static Value RPow(Value a, Value k) {
    Q x = q(a); int e = ((IntValue) k).val;
    if (x.k != 0) { Q r = ONE; for (int i = 0; i < e; i++) r = mul(r, x); return v(r); }
    return v(e >= 0 ? new Q(x.n.pow(e), x.d.pow(e)) : new Q(x.d.pow(-e), x.n.pow(-e)));
  }
  public static Value RSum(Value s) { Q r = ZERO; for (Value x : seq(s)) r = add(r, q(x)); return v(r); }
  // largest magnitude ("0" when empty; nan is contagious), largest and smallest member
  public static Value RMaxAbs(Value s) {
    Q r = ZERO;
    for (Value x : seq(s)) { Q y = q(x); if (y.k == 1) return v(NAN); if (y.sg() < 0) y = neg(y); if (cmp(r, y) == -1) r = y; }
    return v(r);
  }
  public static Value RMaxOf(Value s) { Q r = null; for (Value x : seq(s)) { Q y = q(x); if (r == null || cmp(r, y) == -1) r = y; } return v(r); }
  public static Value RMinOf(Value s) { Q r = null; for (Value x : seq(s)) { Q y = q(x); if (r == null || cmp(y, r) == -1) r = y; } return v(r); }
  public static Value RCumSum(Value s) {
    Value[] x = seq(s), y = new Value[x.length];
    Q r = ZERO;
    for (int i = 0; i < x.length; i++) { r = add(r, q(x[i])); y[i] = v(r); }
    return new TupleValue(y);
  }
  public static Value RDot(Value s, Value t) {
    Value[] x = seq(s), y = seq(t);
    if (x.length != y.length) throw new RuntimeException("Rat: RDot on lengths " + x.length + ", " + y.length);
    Q r = ZERO;
    for (int i = 0; i < x.length; i++) r = add(r, mul(q(x[i]), q(y[i])));
    return v(r);
  }
  // |a - c| <= tol; equal infinities are close, nan is close to nothing
  public static Value RNear(Value a, Value c, Value tol) {
    Q x = q(a), y = q(c);
    if (x.k == 1 || y.k == 1) return b(false);
    if (x.k != 0 || y.k != 0) return b(x.k == y.k);
    Q d = add(x, neg(y));
    if (d.n.signum() < 0) d = neg(d);
    int r = cmp(d, q(tol));
    return b(r == -1 || r == 0);
  }
  // Nearest multiple of 2^-bits relative to the magnitude: keeps numerators short where exactness is not needed
  static Q round(Q x, int bits) {
    if (x.k != 0 || x.n.signum() == 0) return x;
    int e = x.n.bitLength() - x.d.bitLength();      // x ~ 2^e
    int sh = bits - e;
    BigInteger num = sh >= 0 ? x.n.shiftLeft(sh) : x.n, den = sh >= 0 ? x.d : x.d.shiftLeft(-sh);
    BigInteger f = num.shiftLeft(1).add(den).divide(den.shiftLeft(1)); // truncation towards 0 is fine here
    return sh >= 0 ? new Q(f, BigInteger.ONE.shiftLeft(sh)) : new Q(f.shiftLeft(-sh), BigInteger.ONE);
  }
  public static Value RRound(Value a, Value bits) { return v(round(q(a), ((IntValue) bits).val)); }
  // Square root, exact for perfect squares, otherwise within 2^-200 relative
  public static Value RSqrt(Value a) {
    Q x = q(a);
    if (x.k == 1 || x.sg() < 0) return v(NAN);
    if (x.k != 0 || x.n.signum() == 0) return v(x);
    BigInteger rn = x.n.sqrt(), rd = x.d.sqrt();
    if (rn.multiply(rn).equals(x.n) && rd.multiply(rd).equals(x.d)) return v(new Q(rn, rd));
    int sh = Math.max(0, 420 - (x.n.bitLength() - x.d.bitLength()));
    sh += sh & 1;
    BigInteger r = x.n.shiftLeft(sh).divide(x.d).sqrt();
    return v(new Q(r, BigInteger.ONE.shiftLeft(sh / 2)));
  }
  // exp to 2^-150 relative
  static Q expq(Q x) {
    if (x.k == 1 || x.k == 2) return x;
    if (x.k == 3) return ZERO;
    int e = Math.max(0, x.n.bitLength() - x.d.bitLength() + 1) + 8;
    Q y = new Q(x.n, x.d.shiftLeft(e)), t = ONE, s = ONE;
    for (int i = 1; i < 60; i++) { t = round(mul(t, new Q(y.n, y.d.multiply(BigInteger.valueOf(i)))), 320); s = add(s, t); if (t.n.signum() == 0 || t.n.bitLength() - t.d.bitLength() < -340) break; }
    s = round(s, 320);
    for (int i = 0; i < e; i++) s = round(mul(s, s), 320);
    return s;
  }
  static final ConcurrentHashMap<String, Q> exps = new ConcurrentHashMap<>(), logs = new ConcurrentHashMap<>();
  public static Value RExp(Value a) {
    Q x = q(a);
    if (x.k != 0) return v(expq(x));
    String key = x.n + "/" + x.d;
    Q y = exps.get(key);
    if (y == null) { y = round(expq(x), 200); if (exps.size() < 200000) exps.put(key, y); }
    return v(y);
  }
  // log by Newton on exp
  public static Value RLog(Value a) {
    Q x = q(a);
    if (x.k == 1 || x.sg() < 0) return v(NAN);
    if (x.k == 2) return v(x);
    if (x.n.signum() == 0) return v(NINF);
    String key = x.n + "/" + x.d;
    Q known = logs.get(key);
    if (known != null) return v(known);
    int e = x.n.bitLength() - x.d.bitLength();
    Q m = e >= 0 ? new Q(x.n, x.d.shiftLeft(e)) : new Q(x.n.shiftLeft(-e), x.d); // in (1/2,2)
    Q l2 = LN2, y = logNewton(m);
    Q z = round(add(y, mul(l2, new Q(BigInteger.valueOf(e), BigInteger.ONE))), 200);
    if (logs.size() < 200000) logs.put(key, z);
    return v(z);
  }
  static final Q LN2 = logNewton(new Q(BigInteger.TWO, BigInteger.ONE));
  static Q logNewton(Q m) {
    double d = new java.math.BigDecimal(m.n).divide(new java.math.BigDecimal(m.d), new java.math.MathContext(30)).doubleValue();
    java.math.BigDecimal bd = new java.math.BigDecimal(Math.log(d));
    Q y = bd.scale() >= 0 ? new Q(bd.unscaledValue(), BigInteger.TEN.pow(bd.scale())) : new Q(bd.toBigInteger(), BigInteger.ONE);
    for (int i = 0; i < 3; i++) y = round(add(y, add(mul(m, expq(neg(y))), neg(ONE))), 320);
    return y;
  }

  // Eigenvalues (ascending) of the Jacobi matrix with diagonal d and squared off-diagonal b2 > 0, within 2^-bits, by
  // bisection on exact pivot counts (StCount of module Sturm, against which the model MCMatFun checks this operator)
  static int pivots(Q[] d, Q[] b2, Q x) {
    int cnt = 0; Q p = ONE; boolean minf = false;
    for (int i = 0; i < d.length; i++) {
      boolean z = i == 0 || b2[i - 1].n.signum() == 0;
      if (!z && !minf && p.n.signum() == 0) { cnt++; minf = true; continue; }
      Q t = add(d[i], neg(x));
      p = z || minf ? t : add(t, neg(div(b2[i - 1], p)));
      minf = false;
      if (p.n.signum() < 0) cnt++;
    }
    return cnt;
  }
  static final ConcurrentHashMap<String, Value> jacobis = new ConcurrentHashMap<>();
  public static Value RJacobi(Value dv, Value bv, Value bits) {
    String key = java.util.Arrays.toString(seq(dv)) + java.util.Arrays.toString(seq(bv)) + bits;
    Value known = jacobis.get(key);
    if (known != null) return known;
    if (jacobis.size() > 20000) jacobis.clear();
    Value r = jacobi(dv, bv, bits);
    jacobis.put(key, r);
    return r;
  }
  static Value jacobi(Value dv, Value bv, Value bits) {
    Value[] de = seq(dv), be = seq(bv);
    int k = de.length;
    Q[] d = new Q[k], b2 = new Q[Math.max(0, k - 1)];
    Q r = ONE;
    for (int i = 0; i < k; i++) { d[i] = q(de[i]); r = add(r, d[i].n.signum() < 0 ? neg(d[i]) : d[i]); }
    for (int i = 0; i < k - 1; i++) { b2[i] = q(be[i]); r = add(r, add(ONE, b2[i])); }
    int e = Math.max(1, r.n.bitLength() - r.d.bitLength() + 1);
    int steps = e + 1 + ((IntValue) bits).val;
    Value[] out = new Value[k];
    for (int i = 1; i <= k; i++) {
      // interval (a, a + 2) * 2^(e - s), a an integer
      BigInteger a = BigInteger.ONE.negate();
      int ex = e;                                  // lo = a * 2^ex, hi = (a + 2) * 2^ex
      for (int s = 0; s < steps; s++) {
        BigInteger m = a.add(BigInteger.ONE);
        Q mid = ex >= 0 ? new Q(m.shiftLeft(ex), BigInteger.ONE) : new Q(m, BigInteger.ONE.shiftLeft(-ex));
        a = pivots(d, b2, mid) >= i ? a.shiftLeft(1) : m.shiftLeft(1);
        ex--;
      }
      BigInteger m = a.add(BigInteger.ONE);
      out[i - 1] = v(ex >= 0 ? new Q(m.shiftLeft(ex), BigInteger.ONE) : new Q(m, BigInteger.ONE.shiftLeft(-ex)));
    }
    return new TupleValue(out);
  }

  // ---- two-sided quantiles of Student's t (integer degrees of freedom) and of the normal distribution
  // A level is a decimal string, read as the double the code receives.
  static final java.math.MathContext MC = new java.math.MathContext(70);
  static BigDecimal bd(long x) { return BigDecimal.valueOf(x); }
  static BigDecimal atanInv(int k) { // atan(1/k)
    BigDecimal x = BigDecimal.ONE.divide(bd(k), MC), t = x, s = x, x2 = x.multiply(x, MC);
    for (int i = 1; i < 120; i++) {
      t = t.multiply(x2, MC).negate();
      s = s.add(t.divide(bd(2 * i + 1), MC), MC);
    }
    return s;
  }
  static final BigDecimal PI = atanInv(5).multiply(bd(16)).subtract(atanInv(239).multiply(bd(4)), MC);
  static BigDecimal[] sincos(BigDecimal x) {
    BigDecimal s = BigDecimal.ZERO, c = BigDecimal.ZERO, t = BigDecimal.ONE;
    for (int i = 0; i < 80; i++) {
      BigDecimal u = (i / 2) % 2 == 0 ? t : t.negate();
      if (i % 2 == 0) c = c.add(u, MC); else s = s.add(u, MC);
      t = t.multiply(x, MC).divide(bd(i + 1), MC);
    }
    return new BigDecimal[] {s, c};
  }
  // probability of |T| <= sqrt(df) tan(th)
  static BigDecimal tprob(BigDecimal th, int df) {
    BigDecimal[] sc = sincos(th);
    BigDecimal s = sc[0], c = sc[1], c2 = c.multiply(c, MC), t, sum = BigDecimal.ZERO;
    if (df % 2 == 0) {
      t = BigDecimal.ONE;
      for (int i = 0; i < df / 2; i++) {
        sum = sum.add(t, MC);
        t = t.multiply(c2, MC).multiply(bd(2 * i + 1), MC).divide(bd(2 * i + 2), MC);
      }
      return s.multiply(sum, MC);
    }
    t = c;
    for (int i = 0; i < (df - 1) / 2; i++) {
      sum = sum.add(t, MC);
      t = t.multiply(c2, MC).multiply(bd(2 * i + 2), MC).divide(bd(2 * i + 3), MC);
    }
    return th.add(s.multiply(sum, MC), MC).multiply(bd(2)).divide(PI, MC);
  }
  static Q ofBig(BigDecimal x) {
    BigInteger u = x.unscaledValue();
    return x.scale() >= 0 ? new Q(u, BigInteger.TEN.pow(x.scale())) : new Q(u.multiply(BigInteger.TEN.pow(-x.scale())), BigInteger.ONE);
  }
  static final ConcurrentHashMap<String, Value> quants = new ConcurrentHashMap<>();
  static String level(Value a) { return ((StringValue) a).val.toString(); }
  public static Value RLevel(Value a) { return v(ofBig(new BigDecimal(Double.parseDouble(level(a))))); }
  public static Value RTQuant(Value lev, Value n) {
    int df = n instanceof IntValue ? ((IntValue) n).val : q(n).n.intValueExact();
    String l = level(lev), key = l + "|" + df;
    Value known = quants.get(key);
    if (known != null) return known;
    BigDecimal L = new BigDecimal(Double.parseDouble(l));
    Value r;
    if (L.signum() <= 0) r = v(ZERO);
    else if (L.compareTo(BigDecimal.ONE) >= 0) r = v(PINF);
    else {
      BigDecimal lo = BigDecimal.ZERO, hi = PI.divide(bd(2), MC);
      for (int i = 0; i < 24; i++) {
        BigDecimal m = lo.add(hi, MC).divide(bd(2), MC);
        if (tprob(m, df).compareTo(L) < 0) lo = m; else hi = m;
      }
      BigDecimal c = df % 2 == 0 ? BigDecimal.ONE : bd(2).divide(PI, MC);   // density constant in the angle
      for (int k = 2 - df % 2; k < df; k += 2) c = c.multiply(bd(k + 1), MC).divide(bd(k), MC);
      BigDecimal th = lo, top = PI.divide(bd(2), MC);
      for (int i = 0; i < 60; i++) {
        BigDecimal d = L.subtract(tprob(th, df), MC).divide(c.multiply(sincos(th)[1].pow(df - 1, MC), MC), MC);
        th = th.add(d, MC);
        if (d.abs().compareTo(new BigDecimal("1e-55")) < 0) break;
      }
      BigDecimal[] sc = sincos(th);
      r = v(round(ofBig(bd(df).sqrt(MC).multiply(sc[0], MC).divide(sc[1], MC)), 120));
    }
    quants.put(key, r);
    return r;
  }
  static BigDecimal expb(BigDecimal x) {
    BigDecimal y = x.divide(bd(1024), MC), s = BigDecimal.ONE, t = BigDecimal.ONE;
    for (int i = 1; i < 45; i++) { t = t.multiply(y, MC).divide(bd(i), MC); s = s.add(t, MC); }
    for (int i = 0; i < 10; i++) s = s.multiply(s, MC);
    return s;
  }
  static BigDecimal erf(BigDecimal x) {
    BigDecimal x2 = x.multiply(x, MC), t = x, s = x;
    for (int k = 1; k < 600; k++) {
      t = t.multiply(x2, MC).multiply(bd(2)).divide(bd(2 * k + 1), MC);
      s = s.add(t, MC);
      if (t.compareTo(new BigDecimal("1e-72")) < 0) break;
    }
    return s.multiply(bd(2)).divide(PI.sqrt(MC), MC).divide(expb(x2), MC);
  }
  public static Value RNQuant(Value lev) {
    String l = level(lev), key = l + "|n";
    Value known = quants.get(key);
    if (known != null) return known;
    BigDecimal L = new BigDecimal(Double.parseDouble(l));
    Value r;
    if (L.signum() <= 0) r = v(ZERO);
    else if (L.compareTo(BigDecimal.ONE) >= 0) r = v(PINF);
    else {
      BigDecimal lo = BigDecimal.ZERO, hi = bd(7);
      for (int i = 0; i < 20; i++) {
        BigDecimal m = lo.add(hi, MC).divide(bd(2), MC);
        if (erf(m).compareTo(L) < 0) lo = m; else hi = m;
      }
      BigDecimal x = lo, c = PI.sqrt(MC).divide(bd(2), MC);
      for (int i = 0; i < 40; i++) {
        BigDecimal d = L.subtract(erf(x), MC).multiply(c, MC).multiply(expb(x.multiply(x, MC)), MC);
        x = x.add(d, MC);
        if (d.abs().compareTo(new BigDecimal("1e-55")) < 0) break;
      }
      r = v(round(ofBig(x.multiply(bd(2).sqrt(MC), MC)), 120));
    }
    quants.put(key, r);
    return r;
  }
}
