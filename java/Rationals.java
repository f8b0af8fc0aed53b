import tlc2.value.impl.*;
import java.math.BigInteger;

/** BigInteger evaluation of the operators of Rationals.tla. */
public final class Rationals {
  private static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value RFin(Value a) { return b(Q.from(a).fin()); }
  public static Value RFrac(Value i, Value j) {
    int d = ((IntValue) j).val;
    return (d == 0 ? Q.NAN : Q.of(BigInteger.valueOf(((IntValue) i).val), BigInteger.valueOf(d))).val();
  }
  public static Value RInt(Value i) { return Q.of(BigInteger.valueOf(((IntValue) i).val), BigInteger.ONE).val(); }
  public static Value RNeg(Value a) { return Q.from(a).neg().val(); }
  public static Value RAbs(Value a) { return Q.from(a).abs().val(); }
  public static Value RAdd(Value x, Value y) { return Q.from(x).add(Q.from(y)).val(); }
  public static Value RSub(Value x, Value y) { return Q.from(x).sub(Q.from(y)).val(); }
  public static Value RMul(Value x, Value y) { return Q.from(x).mul(Q.from(y)).val(); }
  public static Value RDiv(Value x, Value y) { return Q.from(x).div(Q.from(y)).val(); }
  public static Value RLe(Value x, Value y) { return b(Q.from(x).le(Q.from(y))); }
  public static Value RLt(Value x, Value y) { return b(Q.from(x).lt(Q.from(y))); }
  public static Value RMax(Value x, Value y) { return Q.from(x).max(Q.from(y)).val(); }
  public static Value RUp(Value a) { return Q.from(a).up().val(); }
}
