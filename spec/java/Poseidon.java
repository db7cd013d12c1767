import java.math.BigInteger;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** TLC overrides for the generator of Poseidon.tla (PoseidonCheck.tla compares them with its definitions). */
public class Poseidon {
    static int[] get(Value s) {
        Value[] e = ((TupleValue) s.toTuple()).elems;
        int[] b = new int[80];
        for (int i = 0; i < 80; i++) b[i] = ((IntValue) e[i]).val;
        return b;
    }
    static Value put(int[] b, int at) {
        Value[] e = new Value[80];
        for (int i = 0; i < 80; i++) e[i] = IntValue.gen(b[(at + i) % 80]);
        return new TupleValue(e);
    }
    public static Value Clocks(final Value s, final Value n) {
        int[] b = get(s);
        int at = 0;
        for (int k = ((IntValue) n).val; k > 0; k--) {
            b[at] ^= b[(at + 62) % 80] ^ b[(at + 51) % 80] ^ b[(at + 38) % 80] ^ b[(at + 23) % 80] ^ b[(at + 13) % 80];
            at = (at + 1) % 80;
        }
        return put(b, at);
    }
    public static Value TakeBits(final Value s, final Value n, final Value v) {
        int[] b = get(s);
        int at = 0;
        BigInteger x = v instanceof IntValue ? BigInteger.valueOf(((IntValue) v).val) : new BigInteger(((StringValue) v).getVal().toString(), 16);
        for (int k = ((IntValue) n).val; k > 0; ) {
            int first = 0;
            for (int j = 0; j < 2; j++) {
                int y = b[at] ^= b[(at + 62) % 80] ^ b[(at + 51) % 80] ^ b[(at + 38) % 80] ^ b[(at + 23) % 80] ^ b[(at + 13) % 80];
                at = (at + 1) % 80;
                if (j == 0) first = y;
                else if (first == 1) { x = x.shiftLeft(1).add(BigInteger.valueOf(y)); k--; }
            }
        }
        return new TupleValue(new Value[]{put(b, at), new StringValue(x.toString(16))});
    }
}
