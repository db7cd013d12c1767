import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** TLC overrides for Field.tla (same meaning, 64-bit arithmetic). */
public class Field {
    private static long v(Value x) { return ((IntValue) x).val; }
    private static Value r(long x) { return IntValue.gen((int) x); }
    private static long pow(long a, long e, long p) {
        long r = 1 % p; a %= p;
        while (e > 0) { if ((e & 1) == 1) r = r * a % p; a = a * a % p; e >>= 1; }
        return r;
    }
    public static Value AddM(final Value a, final Value b, final Value p) { return r((v(a) + v(b)) % v(p)); }
    public static Value SubM(final Value a, final Value b, final Value p) { return r((v(a) - v(b) + v(p)) % v(p)); }
    public static Value NegM(final Value a, final Value p) { return r((v(p) - v(a)) % v(p)); }
    public static Value MulM(final Value a, final Value b, final Value p) { return r(v(a) * v(b) % v(p)); }
    public static Value PowM(final Value a, final Value e, final Value p) { return r(pow(v(a), v(e), v(p))); }
    public static Value InvM(final Value a, final Value p) { return r(pow(v(a), v(p) - 2, v(p))); }
    public static Value DotM(final Value s, final Value t, final Value pp) {
        TupleValue x = (TupleValue) s.toTuple(), y = (TupleValue) t.toTuple();
        long p = v(pp), acc = 0;
        for (int i = 0; i < x.elems.length; i++) acc = (acc + v(x.elems[i]) * v(y.elems[i])) % p;
        return r(acc);
    }
    public static Value EvalM(final Value c, final Value x, final Value pp) {
        TupleValue s = (TupleValue) c.toTuple();
        long p = v(pp), acc = 0, z = v(x);
        for (int i = s.elems.length - 1; i >= 0; i--) acc = (acc * z + v(s.elems[i])) % p;
        return r(acc);
    }
    public static Value SubScaledM(final Value a, final Value c, final Value b, final Value pp) {
        TupleValue x = (TupleValue) a.toTuple(), y = (TupleValue) b.toTuple();
        long p = v(pp), k = v(c);
        Value[] out = new Value[x.elems.length];
        for (int i = 0; i < out.length; i++) out[i] = r(((v(x.elems[i]) - k * v(y.elems[i])) % p + p) % p);
        return new TupleValue(out);
    }
    public static Value ScaleM(final Value a, final Value c, final Value pp) {
        TupleValue x = (TupleValue) a.toTuple();
        long p = v(pp), k = v(c);
        Value[] out = new Value[x.elems.length];
        for (int i = 0; i < out.length; i++) out[i] = r(k * v(x.elems[i]) % p);
        return new TupleValue(out);
    }
}
