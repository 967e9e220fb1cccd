// TLC operator overrides for module Float: IEEE-754 double arithmetic on numbers
// written as strings (Java's shortest round-trip form).  Compiled by the harness
// into the directory TLC runs in; TLC loads Float.class for module Float.
import tlc2.value.impl.*;

public class Float {
  private static double d(final Value v) {
    if (v instanceof IntValue) return ((IntValue) v).val;
    if (v instanceof StringValue) {
      final String s = ((StringValue) v).val.toString();
      switch (s) {
        case "nan": case "NaN": return Double.NaN;
        case "inf": case "Infinity": return Double.POSITIVE_INFINITY;
        case "-inf": case "-Infinity": return Double.NEGATIVE_INFINITY;
        default:
          try { return Double.parseDouble(s); }
          catch (NumberFormatException e) { return Double.NaN; }
      }
    }
    return Double.NaN;
  }
  private static Value w(final double x) { return new StringValue(Double.toString(x)); }
  private static Value b(final boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

  public static Value FAdd(final Value a, final Value c) { return w(d(a) + d(c)); }
  public static Value FSub(final Value a, final Value c) { return w(d(a) - d(c)); }
  public static Value FMul(final Value a, final Value c) { return w(d(a) * d(c)); }
  public static Value FDiv(final Value a, final Value c) { return w(d(a) / d(c)); }
  public static Value FPow(final Value a, final Value c) { return w(Math.pow(d(a), d(c))); }
  public static Value FNeg(final Value a) { return w(-d(a)); }
  public static Value FExp(final Value a) { return w(Math.exp(d(a))); }
  public static Value FLog(final Value a) { return w(Math.log(d(a))); }
  public static Value FLog10(final Value a) { return w(Math.log10(d(a))); }
  public static Value FSqrt(final Value a) { return w(Math.sqrt(d(a))); }
  public static Value FAbs(final Value a) { return w(Math.abs(d(a))); }
  public static Value FSin(final Value a) { return w(Math.sin(d(a))); }
  public static Value FCos(final Value a) { return w(Math.cos(d(a))); }
  public static Value FFloor(final Value a) { return w(Math.floor(d(a))); }
  public static Value FCeil(final Value a) { return w(Math.ceil(d(a))); }
  public static Value FMax(final Value a, final Value c) { return w(Math.max(d(a), d(c))); }
  public static Value FRat(final Value n, final Value m) { return w(d(n) / d(m)); }
  public static Value FLit(final Value a) {   // Fortran literals: D or E exponents
    if (a instanceof StringValue)
      return w(d(new StringValue(((StringValue) a).val.toString().replace('D', 'E').replace('d', 'E'))));
    return w(d(a));
  }
  public static Value FSingle(final Value a) { return w((double) (float) d(a)); }
  public static Value FToInt(final Value a) { return IntValue.gen((int) Math.round(d(a))); }
  public static Value FIsNum(final Value a) { final double x = d(a); return b(!Double.isNaN(x) && !Double.isInfinite(x)); }
  public static Value FLt(final Value a, final Value c) { return b(d(a) < d(c)); }
  public static Value FLe(final Value a, final Value c) { return b(d(a) <= d(c)); }
  public static Value FEq(final Value a, final Value c) { return b(d(a) == d(c)); }
  // |a-b| <= rtol * max(|a|,|b|,scale); exact equality always passes
  public static Value FClose(final Value a, final Value c, final Value rtol, final Value scale) {
    final double x = d(a), y = d(c);
    if (x == y) return BoolValue.ValTrue;
    final double m = Math.max(Math.max(Math.abs(x), Math.abs(y)), Math.abs(d(scale)));
    return b(Math.abs(x - y) <= d(rtol) * m);
  }
  private static Value[] seq(final Value s) {
    final TupleValue t = (TupleValue) s.toTuple();
    return t.elems;
  }
  public static Value FSum(final Value s) {
    double x = 0; for (final Value v : seq(s)) x += d(v); return w(x);
  }
  public static Value FSumAbs(final Value s) {
    double x = 0; for (final Value v : seq(s)) x += Math.abs(d(v)); return w(x);
  }
  public static Value FProd(final Value s) {
    double x = 1; for (final Value v : seq(s)) x *= d(v); return w(x);
  }
}
