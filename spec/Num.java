// TLC module override for Num.tla (decimal arithmetic and text helpers).
import tlc2.value.impl.*;
import util.UniqueString;
import java.math.BigDecimal;
import java.math.MathContext;
import java.math.RoundingMode;

public class Num {
  static final MathContext MC = new MathContext(34, RoundingMode.HALF_EVEN);
  static String s(Value v) {
    if (v instanceof StringValue) return ((StringValue) v).val.toString();
    if (v instanceof IntValue) return Integer.toString(((IntValue) v).val);
    throw new IllegalArgumentException("Num: not a number: " + v);
  }
  static Value str(String x) { return new StringValue(UniqueString.uniqueStringOf(x)); }
  static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static Double special(String x) {
    switch (x) {
      case "inf": case "Infinity": case "+inf": return Double.POSITIVE_INFINITY;
      case "-inf": case "-Infinity": return Double.NEGATIVE_INFINITY;
      case "nan": case "NaN": return Double.NaN;
      default: return null;
    }
  }
  static BigDecimal dec(String x) { return new BigDecimal(x.trim()); }
  static double dbl(String x) { Double d = special(x); return d != null ? d : Double.parseDouble(x); }
  static Value fromD(double d) {
    if (Double.isNaN(d)) return str("nan");
    if (d == Double.POSITIVE_INFINITY) return str("inf");
    if (d == Double.NEGATIVE_INFINITY) return str("-inf");
    return str(Double.toString(d));
  }
  static Value out(BigDecimal b) {
    b = b.round(MC);
    return str(b.signum() == 0 ? "0" : b.toString());
  }
  static boolean sp(String a, String b) { return special(a) != null || special(b) != null; }

  public static Value NAdd(Value a, Value b) {
    String x = s(a), y = s(b);
    if (sp(x, y)) return fromD(dbl(x) + dbl(y));
    return out(dec(x).add(dec(y), MC));
  }
  public static Value NSub(Value a, Value b) {
    String x = s(a), y = s(b);
    if (sp(x, y)) return fromD(dbl(x) - dbl(y));
    return out(dec(x).subtract(dec(y), MC));
  }
  public static Value NMul(Value a, Value b) {
    String x = s(a), y = s(b);
    if (sp(x, y)) {
      double p = dbl(x), q = dbl(y);
      if (p == 0 || q == 0) return str("0");
      return fromD(p * q);
    }
    return out(dec(x).multiply(dec(y), MC));
  }
  public static Value NDiv(Value a, Value b) {
    String x = s(a), y = s(b);
    if (sp(x, y)) return fromD(dbl(x) / dbl(y));
    BigDecimal q = dec(y);
    if (q.signum() == 0) return fromD((double) dec(x).signum() / 0.0);
    return out(dec(x).divide(q, MC));
  }
  public static Value NSqrt(Value a) {
    String x = s(a);
    if (special(x) != null) return fromD(Math.sqrt(dbl(x)));
    BigDecimal p = dec(x);
    if (p.signum() < 0) return str("nan");
    if (p.signum() == 0) return str("0");
    return out(p.sqrt(MC));
  }
  public static Value NCosDeg(Value a) { return fromD(StrictMath.cos(StrictMath.toRadians(dbl(s(a))))); }
  public static Value NSinDeg(Value a) { return fromD(StrictMath.sin(StrictMath.toRadians(dbl(s(a))))); }
  public static Value NInt(Value a) { return str(s(a)); }
  static int cmp(String x, String y) { // caller excluded nan
    if (sp(x, y)) return Double.compare(dbl(x), dbl(y));
    return dec(x).compareTo(dec(y));
  }
  static boolean nan(String x, String y) { return Double.isNaN(spv(x)) || Double.isNaN(spv(y)); }
  static double spv(String x) { Double d = special(x); return d == null ? 0.0 : d; }
  public static Value NLt(Value a, Value b) {
    String x = s(a), y = s(b);
    return bool(!nan(x, y) && cmp(x, y) < 0);
  }
  public static Value NLe(Value a, Value b) {
    String x = s(a), y = s(b);
    return bool(!nan(x, y) && cmp(x, y) <= 0);
  }
  public static Value NEq(Value a, Value b) {
    String x = s(a), y = s(b);
    return bool(!nan(x, y) && cmp(x, y) == 0);
  }
  static boolean close(String x, String y, BigDecimal tol) {
    if (nan(x, y)) return false;
    if (sp(x, y)) return Double.compare(dbl(x), dbl(y)) == 0;
    BigDecimal p = dec(x), q = dec(y);
    BigDecimal m = p.abs().max(q.abs());
    return p.subtract(q).abs().compareTo(tol.multiply(BigDecimal.ONE.add(m), MC)) <= 0;
  }
  static final BigDecimal TOL = new BigDecimal("1e-9");
  public static Value NClose(Value a, Value b) { return bool(isnum(s(a)) && isnum(s(b)) && close(s(a), s(b), TOL)); }
  public static Value NCloseT(Value a, Value b, Value t) { return bool(isnum(s(a)) && isnum(s(b)) && close(s(a), s(b), dec(s(t)))); }
  static boolean isnum(String x) {
    Double d = special(x);
    if (d != null) return !Double.isNaN(d);
    try { dec(x); return true; } catch (RuntimeException e) { return false; }
  }
  public static Value NIsNum(Value a) {
    if (!(a instanceof StringValue) && !(a instanceof IntValue)) return bool(false);
    return bool(isnum(s(a)));
  }
  public static Value NIsInt(Value a) {
    if (a instanceof IntValue) return bool(true);
    if (!(a instanceof StringValue)) return bool(false);
    return bool(s(a).trim().matches("[+-]?[0-9]+"));
  }
  public static Value NToInt(Value a) { return IntValue.gen(dec(s(a)).intValueExact()); }
  public static Value NRound(Value a, Value k) {
    String x = s(a);
    if (special(x) != null) return str(x);
    return str(dec(x).setScale(((IntValue) k).val, RoundingMode.HALF_EVEN).toPlainString());
  }
  static Value seq(String[] p) {
    Value[] v = new Value[p.length];
    for (int i = 0; i < p.length; i++) v[i] = str(p[i]);
    return new TupleValue(v);
  }
  public static Value SSplit(Value a, Value b) {
    return seq(s(a).split(java.util.regex.Pattern.quote(s(b)), -1));
  }
  public static Value SWords(Value a) {
    String t = s(a).trim();
    return t.isEmpty() ? new TupleValue(new Value[0]) : seq(t.split("\\s+"));
  }
  public static Value SLower(Value a) { return str(s(a).toLowerCase()); }
  public static Value SStarts(Value a, Value b) { return bool(s(a).startsWith(s(b))); }
  public static Value STrim(Value a) { return str(s(a).trim()); }
  public static Value SCat(Value a, Value b) { return str(s(a) + s(b)); }
}
