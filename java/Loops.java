// Loops of module Loops.
import tlc2.tool.EvalControl;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.FcnLambdaValue;
import tlc2.value.impl.FcnRcdValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.OpValue;
import tlc2.value.impl.RecordValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

public class Loops {
  private static boolean holds(OpValue p, Value v) {
    return ((BoolValue) p.eval(new Value[] {v}, EvalControl.Clear)).val;
  }

  // The same value without anything left to be evaluated
  public static Value Force(Value x) {
    if (x instanceof FcnLambdaValue) {
      final Value f = (Value) x.toFcnRcd();
      final Value t = (Value) f.toTuple();
      return Force(t != null ? t : f);
    }
    if (x instanceof TupleValue) {
      force(((TupleValue) x).elems);
    } else if (x instanceof RecordValue) {
      force(((RecordValue) x).values);
    } else if (x instanceof FcnRcdValue) {
      force(((FcnRcdValue) x).values);
    }
    return x;
  }

  private static void force(Value[] vs) {
    for (int i = 0; i < vs.length; ++i) {
      final Value v = Force(vs[i]);
      if (v != vs[i]) {
        vs[i] = v;
      }
    }
  }

  public static Value Iterate(Value p, Value f, Value x) {
    final OpValue pp = (OpValue) p;
    final OpValue ff = (OpValue) f;
    Value y = x;
    while (holds(pp, y)) {
      y = (Value) ff.eval(new Value[] {y}, EvalControl.Clear);
    }
    return y;
  }

  public static Value SkipWhile(Value p, Value i, Value n) {
    final OpValue pp = (OpValue) p;
    int k = ((IntValue) i).val;
    final int last = ((IntValue) n).val;
    while (k <= last && holds(pp, IntValue.gen(k))) {
      ++k;
    }
    return IntValue.gen(k);
  }

  public static Value Fold(Value op, Value x, Value s) {
    final OpValue o = (OpValue) op;
    final TupleValue t = (TupleValue) s.toTuple();
    Value y = x;
    for (Value e : t.elems) {
      y = (Value) o.eval(new Value[] {y, e}, EvalControl.Clear);
    }
    return y;
  }
}
