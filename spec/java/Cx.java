import tlc2.value.impl.*;
import util.Assert;

/**
 * Eager evaluation of Cx.tla.  Every method spells out the TLA+ definition of
 * the same name; the override only spares TLC from re-evaluating the (lazy)
 * arguments for each component.
 */
public final class Cx {
  private static Value re(Value a) { return part(a, 0); }
  private static Value im(Value a) { return part(a, 1); }
  private static Value part(Value a, int k) {
    Value t = a.toTuple();
    if (!(t instanceof TupleValue) || ((TupleValue) t).elems.length != 2) Assert.fail("Cx: not a complex number: " + a);
    return ((TupleValue) t).elems[k];
  }
  private static Value mk(Value x, Value y) { return new TupleValue(new Value[] {x, y}); }

  public static Value CAdd(Value a, Value b) { return mk(Dec.DAdd(re(a), re(b)), Dec.DAdd(im(a), im(b))); }
  public static Value CSub(Value a, Value b) { return mk(Dec.DSub(re(a), re(b)), Dec.DSub(im(a), im(b))); }
  public static Value CMul(Value a, Value b) {
    return mk(Dec.DSub(Dec.DMul(re(a), re(b)), Dec.DMul(im(a), im(b))), Dec.DAdd(Dec.DMul(re(a), im(b)), Dec.DMul(im(a), re(b)))); }
  public static Value CScale(Value k, Value a) { return mk(Dec.DMul(k, re(a)), Dec.DMul(k, im(a))); }
  public static Value CConj(Value a) { return mk(re(a), Dec.DNeg(im(a))); }
  public static Value CNeg(Value a) { return mk(Dec.DNeg(re(a)), Dec.DNeg(im(a))); }
  public static Value CAbs2(Value a) { return Dec.DAdd(Dec.DMul(re(a), re(a)), Dec.DMul(im(a), im(a))); }
  public static Value CAbs(Value a) { return Dec.DSqrt(CAbs2(a)); }
  public static Value CDiv(Value a, Value b) {
    Value n = CAbs2(b), p = CMul(a, CConj(b));
    return mk(Dec.DDiv(re(p), n), Dec.DDiv(im(p), n)); }
  public static Value CSq(Value a) { return CMul(a, a); }
}
