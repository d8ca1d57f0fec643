// Overrides the operators of spec/BigNat.tla of the same names for speed.
// The TLA+ definitions are normative; spec/TestBigNat.tla compares the two.
import java.math.BigInteger;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

public class BigNat {
  private static BigInteger big(Value v) {
    Value[] e = ((TupleValue) v.toTuple()).elems;
    int n = e.length;
    byte[] b = new byte[n];
    for (int i = 0; i < n; i++) b[n - 1 - i] = (byte) ((IntValue) e[i]).val;
    return new BigInteger(1, b);
  }

  private static Value tup(BigInteger x) {
    if (x.signum() == 0) return new TupleValue(new Value[0]);
    byte[] b = x.toByteArray();
    int s = b[0] == 0 ? 1 : 0, n = b.length - s;
    Value[] e = new Value[n];
    for (int i = 0; i < n; i++) e[i] = IntValue.gen(b[b.length - 1 - i] & 255);
    return new TupleValue(e);
  }

  private static int num(Value v) { return ((IntValue) v).val; }

  public static Value NatNorm(Value a) { return tup(big(a)); }
  public static Value NatOf(Value n) { return tup(BigInteger.valueOf(num(n))); }
  public static Value NatToInt(Value a) { return IntValue.gen(big(a).intValueExact()); }
  public static Value NatAdd(Value a, Value b) { return tup(big(a).add(big(b))); }
  public static Value NatSub(Value a, Value b) { return tup(big(a).subtract(big(b))); }
  public static Value NatMul(Value a, Value b) { return tup(big(a).multiply(big(b))); }
  public static Value NatCmp(Value a, Value b) { return IntValue.gen(big(a).compareTo(big(b))); }
  public static Value NatPow(Value a, Value k) { return tup(big(a).pow(num(k))); }
  public static Value NatPow2(Value k) { return tup(BigInteger.ONE.shiftLeft(num(k))); }
  public static Value NatShl(Value a, Value k) { return tup(big(a).shiftLeft(num(k))); }
  public static Value NatShr(Value a, Value k) { return tup(big(a).shiftRight(num(k))); }
  public static Value NatLow(Value a, Value k) {
    return tup(big(a).and(BigInteger.ONE.shiftLeft(num(k)).subtract(BigInteger.ONE)));
  }
  public static Value NatBits(Value a) { return IntValue.gen(big(a).bitLength()); }
  public static Value NatDiv(Value a, Value b) { return tup(big(a).divide(big(b))); }
  public static Value NatRem(Value a, Value b) { return tup(big(a).mod(big(b))); }
  public static Value NatDivMod(Value a, Value b) {
    BigInteger[] r = big(a).divideAndRemainder(big(b));
    return new TupleValue(new Value[] {tup(r[0]), tup(r[1])});
  }
  public static Value NatSqrt(Value a) { return tup(big(a).sqrt()); }
  public static Value NatPad(Value a, Value n) {
    Value[] s = ((TupleValue) a.toTuple()).elems;
    Value[] e = new Value[num(n)];
    for (int i = 0; i < e.length; i++) e[i] = i < s.length ? s[i] : IntValue.gen(0);
    return new TupleValue(e);
  }
  public static Value NatDec(Value a) {
    String s = big(a).toString();
    Value[] e = new Value[s.length()];
    for (int i = 0; i < e.length; i++) e[i] = IntValue.gen(s.charAt(i) - '0');
    return new TupleValue(e);
  }
  public static Value NatOfDec(Value d) {
    Value[] e = ((TupleValue) d.toTuple()).elems;
    StringBuilder s = new StringBuilder("0");
    for (Value v : e) s.append(num(v));
    return tup(new BigInteger(s.toString()));
  }
}
