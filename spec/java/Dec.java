import java.math.BigDecimal;
import java.math.MathContext;
import java.math.RoundingMode;
import tlc2.value.impl.*;
import util.Assert;

/**
 * TLC module override of Dec.tla: 34-digit decimal arithmetic on real numbers.
 * Operands may be decimal strings (as recorded in traces), integers, or values
 * returned by earlier operators.  NaN and infinities are carried through; every
 * comparison that involves NaN is FALSE, so a predicate over recorded values is
 * total.
 */
public final class Dec {
  private static final MathContext MC = new MathContext(34, RoundingMode.HALF_EVEN);

  public static final class Num extends UserObj {
    final BigDecimal v;   // null when not finite
    final double d;       // used when v == null
    Num(BigDecimal v) { this.v = v; this.d = 0; }
    Num(double d) { this.v = null; this.d = d; }
    @Override public int compareTo(Value o) {
      Num n = get(o);
      if (v != null && n.v != null) return v.compareTo(n.v);
      return Double.compare(dbl(), n.dbl());
    }
    double dbl() { return v == null ? d : v.doubleValue(); }
    @Override public boolean member(Value o) { return false; }
    @Override public boolean isFinite() { return true; }
    @Override public StringBuffer toString(StringBuffer sb, int off, boolean swallow) {
      return sb.append('"').append(str(this)).append('"');
    }
  }
  private static String str(Num n) {
    return n.v == null ? Double.toString(n.d) : n.v.round(new MathContext(20)).toString();
  }
  private static Value mk(BigDecimal b) { return new UserValue(new Num(b)); }
  private static Value mk(double d) {
    if (Double.isNaN(d) || Double.isInfinite(d)) return new UserValue(new Num(d));
    return mk(new BigDecimal(d, MC));
  }
  static Num get(Object o) {
    if (o instanceof UserValue && ((UserValue) o).userObj instanceof Num) return (Num) ((UserValue) o).userObj;
    if (o instanceof IntValue) return new Num(BigDecimal.valueOf(((IntValue) o).val));
    if (o instanceof StringValue) {
      String s = ((StringValue) o).val.toString();
      switch (s) {
        case "nan": case "NaN": return new Num(Double.NaN);
        case "inf": case "Infinity": return new Num(Double.POSITIVE_INFINITY);
        case "-inf": case "-Infinity": return new Num(Double.NEGATIVE_INFINITY);
        default: return new Num(new BigDecimal(s));
      }
    }
    Assert.fail("Dec: not a number: " + o);
    return null;
  }
  private static boolean fin(Num a, Num b) { return a.v != null && b.v != null; }

  public static Value DAdd(Value x, Value y) { Num a = get(x), b = get(y);
    return fin(a, b) ? mk(a.v.add(b.v, MC)) : mk(a.dbl() + b.dbl()); }
  public static Value DSub(Value x, Value y) { Num a = get(x), b = get(y);
    return fin(a, b) ? mk(a.v.subtract(b.v, MC)) : mk(a.dbl() - b.dbl()); }
  public static Value DMul(Value x, Value y) { Num a = get(x), b = get(y);
    return fin(a, b) ? mk(a.v.multiply(b.v, MC)) : mk(a.dbl() * b.dbl()); }
  public static Value DDiv(Value x, Value y) { Num a = get(x), b = get(y);
    if (fin(a, b) && b.v.signum() != 0) return mk(a.v.divide(b.v, MC));
    return mk(a.dbl() / b.dbl()); }
  public static Value DNeg(Value x) { Num a = get(x); return a.v != null ? mk(a.v.negate()) : mk(-a.d); }
  public static Value DAbs(Value x) { Num a = get(x); return a.v != null ? mk(a.v.abs()) : mk(Math.abs(a.d)); }
  public static Value DSqrt(Value x) { Num a = get(x);
    if (a.v != null && a.v.signum() >= 0) return mk(a.v.sqrt(MC));
    return mk(Math.sqrt(a.dbl())); }
  public static Value DExp(Value x) { return mk(Math.exp(get(x).dbl())); }
  public static Value DLn(Value x) { return mk(Math.log(get(x).dbl())); }
  public static Value DSin(Value x) { return mk(Math.sin(get(x).dbl())); }
  public static Value DCos(Value x) { return mk(Math.cos(get(x).dbl())); }
  public static Value DAtan2(Value y, Value x) { return mk(Math.atan2(get(y).dbl(), get(x).dbl())); }
  private static final BigDecimal PI = new BigDecimal("3.141592653589793238462643383279502884197");
  public static Value DPi() { return mk(PI); }
  public static Value DMax(Value x, Value y) { Num a = get(x), b = get(y);
    return fin(a, b) ? mk(a.v.max(b.v)) : mk(Math.max(a.dbl(), b.dbl())); }
  public static Value DMin(Value x, Value y) { Num a = get(x), b = get(y);
    return fin(a, b) ? mk(a.v.min(b.v)) : mk(Math.min(a.dbl(), b.dbl())); }
  public static Value DMod(Value x, Value y) { Num a = get(x), b = get(y);   // floor modulus
    if (fin(a, b) && b.v.signum() > 0) {
      BigDecimal r = a.v.remainder(b.v);
      return mk(r.signum() < 0 ? r.add(b.v, MC) : r);
    }
    return mk(Double.NaN); }
  public static Value DLe(Value x, Value y) { Num a = get(x), b = get(y);
    boolean r = fin(a, b) ? a.v.compareTo(b.v) <= 0 : a.dbl() <= b.dbl();
    return r ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value DLt(Value x, Value y) { Num a = get(x), b = get(y);
    boolean r = fin(a, b) ? a.v.compareTo(b.v) < 0 : a.dbl() < b.dbl();
    return r ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value DEq(Value x, Value y) { Num a = get(x), b = get(y);
    boolean r = fin(a, b) ? a.v.compareTo(b.v) == 0 : a.dbl() == b.dbl();
    return r ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value DFinite(Value x) { return get(x).v != null ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value DSum(Value s) {
    TupleValue t = (TupleValue) s.toTuple();
    BigDecimal acc = BigDecimal.ZERO; double d = 0; boolean f = true;
    for (Value e : t.elems) { Num n = get(e); if (n.v != null && f) acc = acc.add(n.v, MC); else { f = false; d += n.dbl(); } }
    return f ? mk(acc) : mk(acc.doubleValue() + d);
  }
  public static Value DDot(Value s, Value u) {
    TupleValue t = (TupleValue) s.toTuple(), w = (TupleValue) u.toTuple();
    if (t.elems.length != w.elems.length) return mk(Double.NaN);
    BigDecimal acc = BigDecimal.ZERO;
    for (int i = 0; i < t.elems.length; i++) {
      Num a = get(t.elems[i]), b = get(w.elems[i]);
      if (!fin(a, b)) return mk(Double.NaN);
      acc = acc.add(a.v.multiply(b.v, MC), MC);
    }
    return mk(acc);
  }
  public static Value DStr(Value x) { return new StringValue(str(get(x))); }
}
