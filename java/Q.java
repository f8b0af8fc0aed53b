import java.math.BigInteger;
import tlc2.value.impl.*;

/** Exact rational with a NaN, and its conversion from and to the TLA+ value of RatPure.tla. */
final class Q {
  static final Q NAN = new Q(null, null), ZERO = new Q(BigInteger.ZERO, BigInteger.ONE), ONE = new Q(BigInteger.ONE, BigInteger.ONE);
  final BigInteger n, d;
  private Q(BigInteger n, BigInteger d) { this.n = n; this.d = d; }
  static Q of(BigInteger n, BigInteger d) {           // d != 0
    if (n.signum() == 0) return ZERO;
    if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
    if (d.bitCount() == 1) {                              // a power of two
      int k = Math.min(d.bitLength() - 1, n.getLowestSetBit());
      return k == 0 ? new Q(n, d) : new Q(n.shiftRight(k), d.shiftRight(k));
    }
    BigInteger g = n.gcd(d);
    return g.equals(BigInteger.ONE) ? new Q(n, d) : new Q(n.divide(g), d.divide(g));
  }
  boolean fin() { return n != null; }
  boolean isZero() { return n != null && n.signum() == 0; }
  Q neg() { return fin() ? new Q(n.negate(), d) : NAN; }
  Q abs() { return fin() ? (n.signum() < 0 ? neg() : this) : NAN; }
  Q add(Q o) {
    if (!fin() || !o.fin()) return NAN;
    if (isZero()) return o;
    if (o.isZero()) return this;
    if (d.equals(o.d)) return of(n.add(o.n), d);
    return of(n.multiply(o.d).add(o.n.multiply(d)), d.multiply(o.d));
  }
  Q sub(Q o) { return add(o.neg()); }
  Q mul(Q o) {
    if (!fin() || !o.fin()) return NAN;
    if (isZero() || o.isZero()) return ZERO;
    return of(n.multiply(o.n), d.multiply(o.d));
  }
  Q div(Q o) {
    if (!fin() || !o.fin() || o.isZero()) return NAN;
    return of(n.multiply(o.d), d.multiply(o.n));
  }
  int cmp(Q o) { return n.multiply(o.d).compareTo(o.n.multiply(d)); }   // both finite
  boolean le(Q o) { return fin() && o.fin() && cmp(o) <= 0; }
  boolean lt(Q o) { return fin() && o.fin() && cmp(o) < 0; }
  /** Least power of two >= |this|. */
  Q up() {
    if (!fin() || isZero()) return this;
    BigInteger m = n.abs();
    int e = m.bitLength() - d.bitLength() - 1;             // 2^e <= m/d * 2 roughly; walk up
    while (true) {
      BigInteger l = e >= 0 ? d.shiftLeft(e) : d, r = e >= 0 ? m : m.shiftLeft(-e);
      if (r.compareTo(l) <= 0) break;                       // m/d <= 2^e
      e++;
    }
    return e >= 0 ? new Q(BigInteger.ONE.shiftLeft(e), BigInteger.ONE) : new Q(BigInteger.ONE, BigInteger.ONE.shiftLeft(-e));
  }
  Q max(Q o) { return !fin() || !o.fin() ? NAN : (cmp(o) <= 0 ? o : this); }

  /** A TupleValue that remembers the BigIntegers it stands for. */
  static final class Val extends TupleValue {
    final Q q;
    Val(Q q, Value[] e) { super(e); this.q = q; }
  }
  private static final int BITS = 15, MASK = (1 << BITS) - 1;
  private static TupleValue limbs(BigInteger a) {       // a >= 0
    int k = (a.bitLength() + BITS - 1) / BITS;
    Value[] v = new Value[k];
    byte[] b = a.toByteArray();                          // big-endian
    for (int i = 0; i < k; i++) {
      int bit = i * BITS, x = 0;
      int by = bit >> 3, off = bit & 7;
      for (int t = 0; t < 4; t++) {
        int idx = b.length - 1 - by - t;
        if (idx >= 0) x |= (b[idx] & 0xff) << (8 * t);
      }
      v[i] = IntValue.gen((x >>> off) & MASK);
    }
    return new TupleValue(v);
  }
  private static BigInteger unlimb(Value v) {
    TupleValue t = tup(v);
    int k = t.elems.length;
    byte[] b = new byte[(k * BITS) / 8 + 2];
    for (int i = 0; i < k; i++) {
      int x = ((IntValue) t.elems[i]).val, bit = i * BITS, by = bit >> 3, off = bit & 7;
      x <<= off;
      for (int s = 0; s < 3; s++) {
        int idx = b.length - 1 - by - s;
        if (idx >= 0) b[idx] |= (byte) (x >>> (8 * s));
      }
    }
    return new BigInteger(1, b);
  }
  static TupleValue tup(Object v) {
    if (v instanceof TupleValue) return (TupleValue) v;
    Value t = ((Value) v).toTuple();
    if (t == null) throw new RuntimeException("not a sequence: " + v);
    return (TupleValue) t;
  }
  Value val() {
    if (!fin()) return new Val(this, new Value[] {IntValue.gen(2), new TupleValue(new Value[0]), new TupleValue(new Value[0])});
    return new Val(this, new Value[] {IntValue.gen(n.signum()), limbs(n.abs()), limbs(d)});
  }
  static Q from(Object v) {
    if (v instanceof Val) return ((Val) v).q;
    TupleValue t = tup(v);
    int s = ((IntValue) t.elems[0]).val;
    if (s == 2) return NAN;
    if (s == 0) return ZERO;
    BigInteger n = unlimb(t.elems[1]), d = unlimb(t.elems[2]);
    return new Q(s < 0 ? n.negate() : n, d);
  }
  static Q[] vec(Object v) {
    TupleValue t = tup(v);
    Q[] r = new Q[t.elems.length];
    for (int i = 0; i < r.length; i++) r[i] = from(t.elems[i]);
    return r;
  }
  static Q[][] mat(Object v) {
    TupleValue t = tup(v);
    Q[][] r = new Q[t.elems.length][];
    for (int i = 0; i < r.length; i++) r[i] = vec(t.elems[i]);
    return r;
  }
  static Value val(Q[] v) {
    Value[] e = new Value[v.length];
    for (int i = 0; i < e.length; i++) e[i] = v[i].val();
    return new TupleValue(e);
  }
  static Value val(Q[][] m) {
    Value[] e = new Value[m.length];
    for (int i = 0; i < e.length; i++) e[i] = val(m[i]);
    return new TupleValue(e);
  }
}
