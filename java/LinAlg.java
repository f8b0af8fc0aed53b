import java.math.BigInteger;
import tlc2.value.impl.*;

/** Evaluation of the operators of LinAlg.tla over Q. */
public final class LinAlg {
  private static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  private static Q dot(Q[] v, Q[] w) {
    Q s = Q.ZERO;
    for (int i = 0; i < v.length; i++) s = s.add(v[i].mul(w[i]));
    return s;
  }
  private static Q[] vadd(Q[] v, Q[] w) { Q[] r = new Q[v.length]; for (int i = 0; i < r.length; i++) r[i] = v[i].add(w[i]); return r; }
  private static Q[] vsub(Q[] v, Q[] w) { Q[] r = new Q[v.length]; for (int i = 0; i < r.length; i++) r[i] = v[i].sub(w[i]); return r; }
  private static Q[] vscale(Q a, Q[] v) { Q[] r = new Q[v.length]; for (int i = 0; i < r.length; i++) r[i] = a.mul(v[i]); return r; }
  private static Q vmax(Q[] v) { Q s = Q.ZERO; for (Q x : v) s = s.max(x.abs()); return s; }
  private static Q[][] t(Q[][] m) {
    int c = m.length == 0 ? 0 : m[0].length;
    Q[][] r = new Q[c][m.length];
    for (int i = 0; i < c; i++) for (int j = 0; j < m.length; j++) r[i][j] = m[j][i];
    return r;
  }
  private static boolean fin(Q[][] m) { for (Q[] r : m) for (Q x : r) if (!x.fin()) return false; return true; }

  public static Value VAdd(Value v, Value w) { return Q.val(vadd(Q.vec(v), Q.vec(w))); }
  public static Value VSub(Value v, Value w) { return Q.val(vsub(Q.vec(v), Q.vec(w))); }
  public static Value VScale(Value a, Value v) { return Q.val(vscale(Q.from(a), Q.vec(v))); }
  public static Value Dot(Value v, Value w) { return dot(Q.vec(v), Q.vec(w)).val(); }
  public static Value VMax(Value v) { return vmax(Q.vec(v)).val(); }
  public static Value VFin(Value v) { return b(fin(new Q[][] {Q.vec(v)})); }
  public static Value MT(Value m) { return Q.val(t(Q.mat(m))); }
  public static Value MAdd(Value m, Value n) {
    Q[][] a = Q.mat(m), c = Q.mat(n), r = new Q[a.length][];
    for (int i = 0; i < r.length; i++) r[i] = vadd(a[i], c[i]);
    return Q.val(r);
  }
  public static Value MSub(Value m, Value n) {
    Q[][] a = Q.mat(m), c = Q.mat(n), r = new Q[a.length][];
    for (int i = 0; i < r.length; i++) r[i] = vsub(a[i], c[i]);
    return Q.val(r);
  }
  public static Value MScale(Value s, Value m) {
    Q[][] a = Q.mat(m), r = new Q[a.length][];
    Q q = Q.from(s);
    for (int i = 0; i < r.length; i++) r[i] = vscale(q, a[i]);
    return Q.val(r);
  }
  public static Value MVec(Value m, Value v) {
    Q[][] a = Q.mat(m);
    Q[] x = Q.vec(v), r = new Q[a.length];
    for (int i = 0; i < r.length; i++) r[i] = dot(a[i], x);
    return Q.val(r);
  }
  /** A finite matrix as integers over one common denominator. */
  private static final class Ints {
    final BigInteger[][] n;
    BigInteger d = BigInteger.ONE;
    Ints(Q[][] m) {
      for (Q[] r : m) for (Q x : r)
        if (!x.d.equals(d) && d.mod(x.d).signum() != 0) d = x.d.mod(d).signum() == 0 ? x.d : d.multiply(x.d.divide(d.gcd(x.d)));
      n = new BigInteger[m.length][];
      for (int i = 0; i < m.length; i++) {
        n[i] = new BigInteger[m[i].length];
        for (int j = 0; j < m[i].length; j++) n[i][j] = x(m[i][j]);
      }
    }
    private BigInteger x(Q q) { return q.d.equals(d) ? q.n : q.n.multiply(d.divide(q.d)); }
  }
  public static Value MMul(Value m, Value n) {
    Q[][] a = Q.mat(m), bt = t(Q.mat(n)), r = new Q[a.length][bt.length];
    if (!fin(a) || !fin(bt)) {
      for (int i = 0; i < a.length; i++) for (int j = 0; j < bt.length; j++) r[i][j] = dot(a[i], bt[j]);
      return Q.val(r);
    }
    Ints x = new Ints(a), y = new Ints(bt);
    BigInteger d = x.d.multiply(y.d);
    for (int i = 0; i < a.length; i++) for (int j = 0; j < bt.length; j++) {
      BigInteger s = BigInteger.ZERO;
      for (int k = 0; k < x.n[i].length; k++)
        if (x.n[i][k].signum() != 0 && y.n[j][k].signum() != 0) s = s.add(x.n[i][k].multiply(y.n[j][k]));
      r[i][j] = Q.of(s, d);
    }
    return Q.val(r);
  }
  public static Value MId(Value n) {
    int k = ((IntValue) n).val;
    Q[][] r = new Q[k][k];
    for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) r[i][j] = i == j ? Q.ONE : Q.ZERO;
    return Q.val(r);
  }
  /** Fraction-free Gauss-Jordan; the empty sequence when singular or not finite. */
  public static Value MInv(Value m) {
    Q[][] a = Q.mat(m);
    if (!fin(a)) return new TupleValue(new Value[0]);
    Object[] last = LAST.get();                           // a step and its error bound invert the same matrix
    if (last == null || !same((Q[][]) last[0], a)) LAST.set(last = new Object[] {a, inv(a)});
    return (Value) last[1];
  }
  private static final ThreadLocal<Object[]> LAST = new ThreadLocal<>();
  private static boolean same(Q[][] a, Q[][] b) {
    if (a.length != b.length) return false;
    for (int i = 0; i < a.length; i++) for (int j = 0; j < a.length; j++)
      if (!a[i][j].n.equals(b[i][j].n) || !a[i][j].d.equals(b[i][j].d)) return false;
    return true;
  }
  private static Value inv(Q[][] a) {
    int n = a.length;
    Ints in = new Ints(a);
    BigInteger[][] w = new BigInteger[n][2 * n];
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
      w[i][j] = in.n[i][j];
      w[i][n + j] = i == j ? BigInteger.ONE : BigInteger.ZERO;
    }
    BigInteger prev = BigInteger.ONE;
    for (int c = 0; c < n; c++) {
      int p = c;
      while (p < n && w[p][c].signum() == 0) p++;
      if (p == n) return new TupleValue(new Value[0]);
      BigInteger[] tmp = w[p]; w[p] = w[c]; w[c] = tmp;
      BigInteger piv = w[c][c];
      for (int i = 0; i < n; i++) {
        if (i == c) continue;
        BigInteger f = w[i][c];
        for (int j = 0; j < 2 * n; j++) {
          BigInteger v = piv.multiply(w[i][j]);
          if (f.signum() != 0 && w[c][j].signum() != 0) v = v.subtract(f.multiply(w[c][j]));
          w[i][j] = v.signum() == 0 ? v : v.divide(prev);
        }
      }
      prev = piv;
    }
    // the left block is prev * I: the inverse is (right block / prev) * common denominator
    Q[][] r = new Q[n][n];
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r[i][j] = Q.of(w[i][n + j].multiply(in.d), prev);
    return Q.val(r);
  }
  public static Value MFin(Value m) { return b(fin(Q.mat(m))); }
  public static Value PSD(Value m) {
    Q[][] a = Q.mat(m);
    if (!fin(a)) return b(false);
    int n = a.length;
    BigInteger[][] w = new Ints(a).n;
    BigInteger prev = BigInteger.ONE;                     // fraction-free: signs are those of the Schur complements
    for (int c = 0; c < n; c++) {
      BigInteger piv = w[c][c];
      if (piv.signum() < 0) return b(false);
      if (piv.signum() == 0) {
        for (int j = c; j < n; j++) if (w[c][j].signum() != 0) return b(false);
        continue;
      }
      for (int i = c + 1; i < n; i++) for (int j = c + 1; j < n; j++)
        w[i][j] = piv.multiply(w[i][j]).subtract(w[i][c].multiply(w[c][j])).divide(prev);
      prev = piv;
    }
    return b(true);
  }
  public static Value MMax(Value m) { Q s = Q.ZERO; for (Q[] r : Q.mat(m)) s = s.max(vmax(r)); return s.val(); }
  public static Value VUp(Value v) {
    Q[] a = Q.vec(v);
    for (int i = 0; i < a.length; i++) a[i] = a[i].up();
    return Q.val(a);
  }
  public static Value MUp(Value m) {
    Q[][] a = Q.mat(m);
    for (Q[] r : a) for (int j = 0; j < r.length; j++) r[j] = r[j].up();
    return Q.val(a);
  }

  /** Value at y of a polynomial, or with j >= 0 of its derivative by the j-th variable. */
  private static Q poly(Value p, int j, Q[] y) {
    Q s = Q.ZERO;
    for (Value t : Q.tup(p).elems) {
      RecordValue mo = (RecordValue) t.toRcd();
      Q acc = Q.from(mo.select(C));
      Value[] e = Q.tup(mo.select(E)).elems;
      int dj = j < 0 ? 0 : ((IntValue) e[j]).val;
      if (j >= 0) acc = dj == 0 ? Q.ZERO : acc.mul(Q.of(BigInteger.valueOf(dj), BigInteger.ONE));
      for (int i = 0; i < e.length; i++) {
        int k = ((IntValue) e[i]).val - (i == j && dj > 0 ? 1 : 0);
        if (k == 0) continue;
        if (i >= y.length) { acc = Q.ZERO; break; }
        Q w = Q.ONE;
        for (; k > 0; k--) w = w.mul(y[i]);
        acc = acc.mul(w);
      }
      s = s.add(acc);
    }
    return s;
  }
  private static final StringValue C = new StringValue("c"), E = new StringValue("e");
  public static Value PolyVal(Value p, Value y) { return poly(p, -1, Q.vec(y)).val(); }
  public static Value MapVal(Value f, Value y) {
    Value[] ps = Q.tup(f).elems;
    Q[] v = Q.vec(y), r = new Q[ps.length];
    for (int i = 0; i < r.length; i++) r[i] = poly(ps[i], -1, v);
    return Q.val(r);
  }
  public static Value MapJac(Value f, Value y, Value n) {
    Value[] ps = Q.tup(f).elems;
    Q[] v = Q.vec(y);
    Q[][] r = new Q[ps.length][((IntValue) n).val];
    for (int i = 0; i < r.length; i++) for (int j = 0; j < r[i].length; j++) r[i][j] = poly(ps[i], j, v);
    return Q.val(r);
  }
}
