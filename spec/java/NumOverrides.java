import java.io.BufferedReader;
import java.io.FileReader;
import java.math.BigInteger;
import java.util.ArrayList;
import java.util.List;
import java.util.Map;
import java.util.concurrent.ConcurrentHashMap;

import com.google.gson.JsonArray;
import com.google.gson.JsonElement;
import com.google.gson.JsonObject;
import com.google.gson.JsonParser;
import com.google.gson.JsonPrimitive;

import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.IValue;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.ModelValue;
import tlc2.value.impl.RecordValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;
import util.UniqueString;

/** Unbounded integers for TLC. See Num.tla, which defines the operators. */
public class NumOverrides implements ITLCOverrides {
  private static final BigInteger LO = BigInteger.valueOf(-(1L << 30));
  private static final BigInteger HI = BigInteger.valueOf(1L << 30);
  private static final ConcurrentHashMap<BigInteger, Value> TO = new ConcurrentHashMap<>();
  private static final ConcurrentHashMap<String, BigInteger> FROM = new ConcurrentHashMap<>();

  @SuppressWarnings("rawtypes")
  @Override
  public Class[] get() {
    return new Class[] {NumOverrides.class};
  }

  private static boolean small(long v) {
    return v > -(1L << 30) && v < (1L << 30);
  }

  static Value of(long v) {
    return small(v) ? IntValue.gen((int) v) : of(BigInteger.valueOf(v));
  }

  static Value of(BigInteger b) {
    if (b.compareTo(LO) > 0 && b.compareTo(HI) < 0) {
      return IntValue.gen(b.intValue());
    }
    Value v = TO.get(b);
    if (v == null) {
      synchronized (TO) {
        v = TO.get(b);
        if (v == null) {
          String s = b.toString();
          v = ModelValue.make(s);
          FROM.put(s, b);
          TO.put(b, v);
        }
      }
    }
    return v;
  }

  static BigInteger big(Value v) {
    if (v instanceof IntValue) {
      return BigInteger.valueOf(((IntValue) v).val);
    }
    if (v instanceof ModelValue) {
      BigInteger b = FROM.get(((ModelValue) v).val.toString());
      if (b != null) {
        return b;
      }
    }
    throw new RuntimeException("not a number: " + v);
  }

  private static boolean ints(Value a, Value b) {
    return a instanceof IntValue && b instanceof IntValue;
  }

  private static long l(Value a) {
    return ((IntValue) a).val;
  }

  private static int cmp(Value a, Value b) {
    return ints(a, b) ? Long.compare(l(a), l(b)) : big(a).compareTo(big(b));
  }

  @TLAPlusOperator(identifier = "++", module = "Num", warn = false)
  public static IValue add(final Value a, final Value b) {
    return ints(a, b) ? of(l(a) + l(b)) : of(big(a).add(big(b)));
  }

  @TLAPlusOperator(identifier = "--", module = "Num", warn = false)
  public static IValue sub(final Value a, final Value b) {
    return ints(a, b) ? of(l(a) - l(b)) : of(big(a).subtract(big(b)));
  }

  @TLAPlusOperator(identifier = "**", module = "Num", warn = false)
  public static IValue mul(final Value a, final Value b) {
    return ints(a, b) ? of(l(a) * l(b)) : of(big(a).multiply(big(b)));
  }

  private static BigInteger floorDiv(BigInteger a, BigInteger b) {
    BigInteger[] qr = a.divideAndRemainder(b);
    return qr[1].signum() != 0 && (qr[1].signum() != b.signum())
        ? qr[0].subtract(BigInteger.ONE) : qr[0];
  }

  @TLAPlusOperator(identifier = "//", module = "Num", warn = false)
  public static IValue div(final Value a, final Value b) {
    return ints(a, b) ? of(Math.floorDiv(l(a), l(b))) : of(floorDiv(big(a), big(b)));
  }

  @TLAPlusOperator(identifier = "%%", module = "Num", warn = false)
  public static IValue mod(final Value a, final Value b) {
    return ints(a, b) ? of(Math.floorMod(l(a), l(b)))
        : of(big(a).subtract(floorDiv(big(a), big(b)).multiply(big(b))));
  }

  @TLAPlusOperator(identifier = "\\prec", module = "Num", warn = false)
  public static IValue lt(final Value a, final Value b) {
    return cmp(a, b) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
  }

  @TLAPlusOperator(identifier = "\\preceq", module = "Num", warn = false)
  public static IValue le(final Value a, final Value b) {
    return cmp(a, b) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
  }

  @TLAPlusOperator(identifier = "\\succ", module = "Num", warn = false)
  public static IValue gt(final Value a, final Value b) {
    return cmp(a, b) > 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
  }

  @TLAPlusOperator(identifier = "\\succeq", module = "Num", warn = false)
  public static IValue ge(final Value a, final Value b) {
    return cmp(a, b) >= 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
  }

  @TLAPlusOperator(identifier = "NMin", module = "Num", warn = false)
  public static IValue min(final Value a, final Value b) {
    return cmp(a, b) <= 0 ? a : b;
  }

  @TLAPlusOperator(identifier = "NMax", module = "Num", warn = false)
  public static IValue max(final Value a, final Value b) {
    return cmp(a, b) >= 0 ? a : b;
  }

  @TLAPlusOperator(identifier = "NCeilDiv", module = "Num", warn = false)
  public static IValue ceilDiv(final Value a, final Value b) {
    return of(floorDiv(big(a).negate(), big(b)).negate());
  }

  @TLAPlusOperator(identifier = "NMulDiv", module = "Num", warn = false)
  public static IValue mulDiv(final Value a, final Value b, final Value c) {
    return of(floorDiv(big(a).multiply(big(b)), big(c)));
  }

  @TLAPlusOperator(identifier = "NMulDivUp", module = "Num", warn = false)
  public static IValue mulDivUp(final Value a, final Value b, final Value c) {
    return of(floorDiv(big(a).multiply(big(b)).negate(), big(c)).negate());
  }

  @TLAPlusOperator(identifier = "NAbs", module = "Num", warn = false)
  public static IValue abs(final Value a) {
    return of(big(a).abs());
  }

  @TLAPlusOperator(identifier = "NPow", module = "Num", warn = false)
  public static IValue pow(final Value a, final Value n) {
    return of(big(a).pow(((IntValue) n).val));
  }

  @TLAPlusOperator(identifier = "NSqrt", module = "Num", warn = false)
  public static IValue sqrt(final Value a) {
    return of(big(a).sqrt());
  }

  @TLAPlusOperator(identifier = "NBits", module = "Num", warn = false)
  public static IValue bits(final Value a) {
    return of(big(a).bitLength());
  }

  @TLAPlusOperator(identifier = "NSum", module = "Num", warn = false)
  public static IValue sum(final Value s) {
    TupleValue t = (TupleValue) s.toTuple();
    BigInteger acc = BigInteger.ZERO;
    for (Value v : t.elems) {
      acc = acc.add(big(v));
    }
    return of(acc);
  }

  @TLAPlusOperator(identifier = "NLit", module = "Num", warn = false)
  public static IValue lit(final StringValue s) {
    return of(new BigInteger(s.val.toString()));
  }

  @TLAPlusOperator(identifier = "NdJson", module = "Num", warn = false)
  public static IValue ndJson(final StringValue path) throws Exception {
    List<Value> out = new ArrayList<>();
    try (BufferedReader r = new BufferedReader(new FileReader(path.val.toString()))) {
      String line;
      while ((line = r.readLine()) != null) {
        if (!line.trim().isEmpty()) {
          out.add(json(JsonParser.parseString(line)));
        }
      }
    }
    return new TupleValue(out.toArray(new Value[0]));
  }

  /** For each line the numbers of the lines which follow it: those which say
   *  so ("par"), or the next one. */
  @TLAPlusOperator(identifier = "NdKids", module = "Num", warn = false)
  public static IValue ndKids(final StringValue path) throws Exception {
    List<List<Value>> out = new ArrayList<>();
    try (BufferedReader r = new BufferedReader(new FileReader(path.val.toString()))) {
      String line;
      while ((line = r.readLine()) != null) {
        if (line.trim().isEmpty()) {
          continue;
        }
        JsonObject o = JsonParser.parseString(line).getAsJsonObject();
        int n = out.size();
        out.add(new ArrayList<>());
        if (!o.get("a").getAsString().equals("init")) {
          int par = o.has("par") ? o.get("par").getAsInt() - 1 : n - 1;
          out.get(par).add(IntValue.gen(n + 1));
        }
      }
    }
    Value[] all = new Value[out.size()];
    for (int i = 0; i < all.length; i++) {
      all[i] = new TupleValue(out.get(i).toArray(new Value[0]));
    }
    return new TupleValue(all);
  }

  private static Value json(JsonElement e) {
    if (e.isJsonArray()) {
      JsonArray a = e.getAsJsonArray();
      Value[] vs = new Value[a.size()];
      for (int i = 0; i < vs.length; i++) {
        vs[i] = json(a.get(i));
      }
      return new TupleValue(vs);
    }
    if (e.isJsonObject()) {
      JsonObject o = e.getAsJsonObject();
      UniqueString[] names = new UniqueString[o.size()];
      Value[] vs = new Value[o.size()];
      int i = 0;
      for (Map.Entry<String, JsonElement> x : o.entrySet()) {
        names[i] = UniqueString.of(x.getKey());
        vs[i] = json(x.getValue());
        i++;
      }
      RecordValue r = new RecordValue(names, vs, false);
      r.normalize();
      return r;
    }
    JsonPrimitive p = e.getAsJsonPrimitive();
    if (p.isBoolean()) {
      return p.getAsBoolean() ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    if (p.isNumber()) {
      return of(new BigInteger(p.getAsString()));
    }
    return new StringValue(p.getAsString());
  }
}
