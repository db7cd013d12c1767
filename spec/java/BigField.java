import java.math.BigInteger;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** TLC overrides for BigField.tla: numbers are lower-case hexadecimal strings. */
public class BigField {
    private static BigInteger v(Value x) { return x instanceof IntValue ? BigInteger.valueOf(((IntValue) x).val) : new BigInteger(((StringValue) x).getVal().toString(), 16); }
    private static Value s(BigInteger x) { return new StringValue(x.toString(16)); }
    private static int i(Value x) { return ((IntValue) x).val; }
    public static Value Big(final Value a) { return s(v(a)); }
    public static Value Small(final Value a) { return IntValue.gen(v(a).intValueExact()); }
    public static Value AddB(final Value a, final Value b, final Value p) { return s(v(a).add(v(b)).mod(v(p))); }
    public static Value SubB(final Value a, final Value b, final Value p) { return s(v(a).subtract(v(b)).mod(v(p))); }
    public static Value NegB(final Value a, final Value p) { return s(v(a).negate().mod(v(p))); }
    public static Value MulB(final Value a, final Value b, final Value p) { return s(v(a).multiply(v(b)).mod(v(p))); }
    public static Value PowB(final Value a, final Value e, final Value p) { return s(v(a).modPow(v(e), v(p))); }
    public static Value InvB(final Value a, final Value p) { return v(a).mod(v(p)).signum() == 0 ? s(BigInteger.ZERO) : s(v(a).modInverse(v(p))); }
    public static Value DotB(final Value a, final Value b, final Value p) {
        TupleValue x = (TupleValue) a.toTuple(), y = (TupleValue) b.toTuple();
        BigInteger acc = BigInteger.ZERO;
        for (int j = 0; j < x.elems.length; j++) acc = acc.add(v(x.elems[j]).multiply(v(y.elems[j])));
        return s(acc.mod(v(p)));
    }
    public static Value EvalB(final Value c, final Value x, final Value p) {
        TupleValue t = (TupleValue) c.toTuple();
        BigInteger acc = BigInteger.ZERO, z = v(x), q = v(p);
        for (int j = t.elems.length - 1; j >= 0; j--) acc = acc.multiply(z).add(v(t.elems[j])).mod(q);
        return s(acc);
    }
    public static Value IAdd(final Value a, final Value b) { return s(v(a).add(v(b))); }
    public static Value ISub(final Value a, final Value b) { return s(v(a).subtract(v(b))); }
    public static Value IMul(final Value a, final Value b) { return s(v(a).multiply(v(b))); }
    public static Value BitB(final Value a, final Value n) { return IntValue.gen(v(a).testBit(i(n)) ? 1 : 0); }
    public static Value BitLenB(final Value a) { return IntValue.gen(v(a).bitLength()); }
    public static Value ShrB(final Value a, final Value n) { return s(v(a).shiftRight(i(n))); }
    public static Value ShlB(final Value a, final Value n) { return s(v(a).shiftLeft(i(n))); }
    public static Value LowB(final Value a, final Value n) { return s(v(a).mod(BigInteger.ONE.shiftLeft(i(n)))); }
    public static Value LtB(final Value a, final Value b) { return v(a).compareTo(v(b)) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
}
