import java.math.BigInteger;
import java.util.ArrayList;
import java.util.Collections;
import java.util.HashMap;
import java.util.IdentityHashMap;
import java.util.List;
import java.util.Map;
import java.util.TreeSet;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.RecordValue;
import tlc2.value.impl.SetEnumValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;
import tlc2.value.impl.ValueVec;
import util.UniqueString;

/** TLC overrides for Circ.tla (see CircCheck.tla for the comparison with its definitions). */
public class Circ {
    static final BigInteger Z = BigInteger.ZERO, ONE = BigInteger.ONE;
    static BigInteger num(Value x) { return x instanceof IntValue ? BigInteger.valueOf(((IntValue) x).val) : new BigInteger(((StringValue) x).getVal().toString(), 16); }
    static Value str(BigInteger x) { return new StringValue(x.toString(16)); }
    static Value[] seq(Value x) { return ((TupleValue) x.toTuple()).elems; }
    static Value fld(Value r, String n) {
        RecordValue v = (RecordValue) r.toRcd();
        for (int i = 0; i < v.names.length; i++) if (v.names[i].toString().equals(n)) return v.values[i];
        throw new RuntimeException("no field " + n);
    }

    static final class E {
        char k; BigInteger c; int h; E a, b;
        BigInteger ev(BigInteger[] arg, BigInteger p) {
            switch (k) {
                case 'c': return c;
                case 'v': return arg[h];
                case '-': return a.ev(arg, p).negate().mod(p);
                case '+': return a.ev(arg, p).add(b.ev(arg, p)).mod(p);
                default: return a.ev(arg, p).multiply(b.ev(arg, p)).mod(p);
            }
        }
        int deg(boolean[] isv) {
            switch (k) {
                case 'c': return 0;
                case 'v': return isv[h] ? 1 : 0;
                case '-': return a.deg(isv);
                case '+': return Math.max(a.deg(isv), b.deg(isv));
                default: return a.deg(isv) + b.deg(isv);
            }
        }
    }
    static E expr(Value x, BigInteger p) {
        Value[] s = seq(x);
        E e = new E();
        e.k = ((StringValue) s[0]).getVal().toString().charAt(0);
        if (e.k == 'c') e.c = num(s[1]).mod(p);
        else if (e.k == 'v') e.h = ((IntValue) s[1]).val - 1;
        else { e.a = expr(s[1], p); if (e.k != '-') e.b = expr(s[2], p); }
        return e;
    }

    static final class Sys {
        BigInteger p; int n; BigInteger[] w; E[][] t; int[] ct, ctab, last; int[][] ca; int[][] inc;
        BigInteger[][][] tab; List<Map<String, Integer>> idx = new ArrayList<>();
    }
    static final Map<Object, Sys> cache = Collections.synchronizedMap(new IdentityHashMap<>());
    static Sys sys(Value v) {
        Sys s = cache.get(v);
        if (s != null) return s;
        s = new Sys();
        s.p = num(fld(v, "p"));
        s.n = ((IntValue) fld(v, "n")).val;
        Value[] w = seq(fld(v, "w"));
        s.w = new BigInteger[w.length + 1];
        for (int i = 0; i < w.length; i++) s.w[i + 1] = num(w[i]).mod(s.p);
        Value[] t = seq(fld(v, "t"));
        s.t = new E[t.length][];
        for (int i = 0; i < t.length; i++) {
            Value[] es = seq(t[i]);
            s.t[i] = new E[es.length];
            for (int j = 0; j < es.length; j++) s.t[i][j] = expr(es[j], s.p);
        }
        Value[] c = seq(fld(v, "c"));
        int m = c.length;
        s.ct = new int[m]; s.ctab = new int[m]; s.ca = new int[m][]; s.last = new int[m];
        int[] cnt = new int[s.n + 1];
        for (int i = 0; i < m; i++) {
            Value[] x = seq(c[i]);
            s.ct[i] = ((IntValue) x[0]).val - 1;
            s.ctab[i] = ((IntValue) x[1]).val - 1;
            Value[] a = seq(x[2]);
            s.ca[i] = new int[a.length];
            TreeSet<Integer> vs = new TreeSet<>();
            for (int j = 0; j < a.length; j++) {
                int q = ((IntValue) a[j]).val;
                s.ca[i][j] = q;
                if (q <= s.n) vs.add(q);
            }
            s.last[i] = vs.isEmpty() ? 0 : vs.last();
            for (int q : vs) cnt[q]++;
        }
        s.inc = new int[s.n + 1][];
        for (int i = 0; i <= s.n; i++) s.inc[i] = new int[cnt[i]];
        int[] at = new int[s.n + 1];
        for (int i = 0; i < m; i++) {
            TreeSet<Integer> vs = new TreeSet<>();
            for (int q : s.ca[i]) if (q <= s.n) vs.add(q);
            for (int q : vs) s.inc[q][at[q]++] = i;
        }
        Value[] tb = seq(fld(v, "tabs"));
        s.tab = new BigInteger[tb.length][][];
        for (int i = 0; i < tb.length; i++) {
            Value[] rows = seq(tb[i]);
            s.tab[i] = new BigInteger[rows.length][];
            Map<String, Integer> ix = new HashMap<>();
            for (int r = 0; r < rows.length; r++) {
                Value[] x = seq(rows[r]);
                BigInteger[] y = new BigInteger[x.length];
                for (int j = 0; j < x.length; j++) y[j] = num(x[j]).mod(s.p);
                s.tab[i][r] = y;
                ix.putIfAbsent(key(y), r);
            }
            s.idx.add(ix);
        }
        cache.put(v, s);
        return s;
    }
    static String key(BigInteger[] y) {
        StringBuilder b = new StringBuilder();
        for (BigInteger x : y) b.append(x.toString(36)).append(',');
        return b.toString();
    }
    static Map<Integer, BigInteger> dev(Sys s, Value d) {
        Map<Integer, BigInteger> m = new HashMap<>();
        for (Value e : seq(d)) { Value[] x = seq(e); m.put(((IntValue) x[0]).val, num(x[1]).mod(s.p)); }
        return m;
    }
    static BigInteger[] args(Sys s, Map<Integer, BigInteger> d, int c) {
        int[] a = s.ca[c];
        BigInteger[] r = new BigInteger[a.length];
        for (int j = 0; j < a.length; j++) { BigInteger x = d.get(a[j]); r[j] = x == null ? s.w[a[j]] : x; }
        return r;
    }
    static boolean holds(Sys s, Map<Integer, BigInteger> d, int c) {
        BigInteger[] a = args(s, d, c);
        E[] t = s.t[s.ct[c]];
        if (s.ctab[c] < 0) {
            for (E e : t) if (e.ev(a, s.p).signum() != 0) return false;
            return true;
        }
        BigInteger[] y = new BigInteger[t.length];
        for (int j = 0; j < t.length; j++) y[j] = t[j].ev(a, s.p);
        return s.idx.get(s.ctab[c]).containsKey(key(y));
    }

    public static Value Val(final Value sys, final Value dev, final Value v) {
        Sys s = sys(sys);
        int i = ((IntValue) v).val;
        BigInteger x = dev(s, dev).get(i);
        return str(x == null ? s.w[i] : x);
    }
    public static Value Holds(final Value sys, final Value dev, final Value c) {
        Sys s = sys(sys);
        return holds(s, dev(s, dev), ((IntValue) c).val - 1) ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    public static Value Violated(final Value sys, final Value dev) {
        Sys s = sys(sys);
        Map<Integer, BigInteger> d = dev(s, dev);
        ValueVec out = new ValueVec();
        for (int c = 0; c < s.ct.length; c++) if (!holds(s, d, c)) out.addElement(IntValue.gen(c + 1));
        return new SetEnumValue(out, true);
    }
    /** The honest witness satisfies everything (the specification checks it), so only constraints on deviating variables can fail. */
    public static Value FirstBad(final Value sys, final Value dev, final Value pos) {
        Sys s = sys(sys);
        Map<Integer, BigInteger> d = dev(s, dev);
        int from = ((IntValue) pos).val, best = -1;
        for (int v : d.keySet()) for (int c : s.inc[v]) {
            if (s.last[c] < from || c == best) continue;
            if (best >= 0 && (s.last[c] > s.last[best] || s.last[c] == s.last[best] && c > best)) continue;
            if (!holds(s, d, c)) best = c;
        }
        return IntValue.gen(best + 1);
    }
    /** Variables that can move to first order while the variables in fix stay. */
    public static Value Loose(final Value sys, final Value fix) {
        Sys s = sys(sys);
        boolean[] fixed = new boolean[s.n + 1];
        for (Value v : ((SetEnumValue) fix.toSetEnum()).elems.toArray()) if (v != null) { int i = ((IntValue) v).val; if (i <= s.n) fixed[i] = true; }
        BigInteger p = s.p;
        @SuppressWarnings("unchecked") java.util.TreeMap<Integer, BigInteger>[] piv = new java.util.TreeMap[s.n + 1];
        Integer[] ord = new Integer[s.ct.length];
        for (int i = 0; i < ord.length; i++) ord[i] = i;
        java.util.Arrays.sort(ord, (x, y) -> s.last[x] - s.last[y]);
        Map<Integer, BigInteger> none = Collections.emptyMap();
        for (int c : ord) {
            BigInteger[] a = args(s, none, c);
            for (E e : s.t[s.ct[c]]) {
                java.util.TreeMap<Integer, BigInteger> row = new java.util.TreeMap<>();
                for (int j = 0; j < a.length; j++) {
                    int v = s.ca[c][j];
                    if (v > s.n || fixed[v]) continue;
                    BigInteger d = der(e, a, j, p)[1];
                    if (d.signum() != 0) row.merge(v, d, (x, y) -> x.add(y).mod(p));
                }
                row.values().removeIf(x -> x.signum() == 0);
                while (!row.isEmpty()) {
                    int v = row.lastKey();
                    BigInteger k = row.get(v);
                    if (piv[v] == null) {
                        BigInteger ki = k.modInverse(p);
                        row.replaceAll((q, x) -> x.multiply(ki).mod(p));
                        piv[v] = row;
                        break;
                    }
                    for (Map.Entry<Integer, BigInteger> q : piv[v].entrySet()) {
                        BigInteger x = row.getOrDefault(q.getKey(), Z).subtract(k.multiply(q.getValue())).mod(p);
                        if (x.signum() == 0) row.remove(q.getKey()); else row.put(q.getKey(), x);
                    }
                }
            }
        }
        ValueVec out = new ValueVec();
        @SuppressWarnings("unchecked") Map<Integer, BigInteger>[] dep = new Map[s.n + 1];
        for (int v = 1; v <= s.n; v++) {
            dep[v] = new HashMap<>();
            if (fixed[v]) continue;
            if (piv[v] == null) dep[v].put(v, ONE);
            else for (Map.Entry<Integer, BigInteger> q : piv[v].entrySet()) if (q.getKey() != v)
                for (Map.Entry<Integer, BigInteger> f : dep[q.getKey()].entrySet()) {
                    BigInteger x = dep[v].getOrDefault(f.getKey(), Z).subtract(q.getValue().multiply(f.getValue())).mod(p);
                    if (x.signum() == 0) dep[v].remove(f.getKey()); else dep[v].put(f.getKey(), x);
                }
            if (!dep[v].isEmpty()) out.addElement(IntValue.gen(v));
        }
        return new SetEnumValue(out, true);
    }
    /** value and derivative with respect to hole h */
    static BigInteger[] der(E e, BigInteger[] a, int h, BigInteger p) {
        switch (e.k) {
            case 'c': return new BigInteger[]{e.c, Z};
            case 'v': return new BigInteger[]{a[e.h], e.h == h ? ONE : Z};
            case '-': { BigInteger[] x = der(e.a, a, h, p); return new BigInteger[]{x[0].negate().mod(p), x[1].negate().mod(p)}; }
            case '+': { BigInteger[] x = der(e.a, a, h, p), y = der(e.b, a, h, p); return new BigInteger[]{x[0].add(y[0]).mod(p), x[1].add(y[1]).mod(p)}; }
            default: { BigInteger[] x = der(e.a, a, h, p), y = der(e.b, a, h, p); return new BigInteger[]{x[0].multiply(y[0]).mod(p), x[0].multiply(y[1]).add(x[1].multiply(y[0])).mod(p)}; }
        }
    }
    public static Value LastVar(final Value sys, final Value c) { return IntValue.gen(sys(sys).last[((IntValue) c).val - 1]); }

    public static Value Solutions(final Value sys, final Value dev, final Value c, final Value v, final Value most) {
        Sys s = sys(sys);
        Map<Integer, BigInteger> d = dev(s, dev);
        int ci = ((IntValue) c).val - 1, vi = ((IntValue) v).val, max = ((IntValue) most).val;
        TreeSet<BigInteger> out = new TreeSet<>();
        E[] t = s.t[s.ct[ci]];
        boolean[] isv = new boolean[s.ca[ci].length];
        for (int j = 0; j < isv.length; j++) isv[j] = s.ca[ci][j] == vi;
        BigInteger[] a = args(s, d, ci);
        if (s.ctab[ci] < 0) {
            List<BigInteger> f = null;
            if (t.length == 1 && t[0].k == '*') factors(t[0], a, isv, s.p, out);
            else {
            for (E e : t) {
                List<BigInteger> g = poly(e, a, isv, s.p);
                f = f == null ? g : gcd(f, g, s.p);
            }
            if (f.isEmpty()) {
                if (s.p.bitLength() < 16) for (BigInteger x = Z; x.compareTo(s.p) < 0; x = x.add(ONE)) out.add(x);
            } else roots(f, s.p, out);
            }
        } else {
            BigInteger[][] tab = s.tab[s.ctab[ci]];
            int m = t.length;
            BigInteger[] b = new BigInteger[m], sl = new BigInteger[m], y = new BigInteger[m];
            boolean affine = true;
            List<List<BigInteger>> fs = new ArrayList<>();
            for (int j = 0; j < m; j++) {
                List<BigInteger> f = poly(t[j], a, isv, s.p);
                affine &= f.size() <= 2;
                fs.add(f);
                b[j] = f.size() > 0 ? f.get(0) : Z;
                sl[j] = f.size() == 2 ? f.get(1).modInverse(s.p) : Z;
                y[j] = t[j].ev(args(s, Collections.emptyMap(), ci), s.p);
            }
            if (!affine) {
                if (s.p.bitLength() < 16) for (BigInteger x = Z; x.compareTo(s.p) < 0; x = x.add(ONE)) { d.put(vi, x); if (holds(s, d, ci)) out.add(x); }
                else {
                    // rows the other columns allow, the nearest 64 of them at most
                    Integer h = s.idx.get(s.ctab[ci]).get(key(y));
                    int h0 = h == null ? 0 : h, tried = 0;
                    for (int i = 0; i < 2 * tab.length && out.size() < max && tried < 64; i++) {
                        int r = i == 0 ? h0 : (i & 1) == 1 ? h0 + (i + 1) / 2 : h0 - i / 2;
                        if (r < 0 || r >= tab.length) continue;
                        boolean ok = true;
                        for (int j = 0; j < m && ok; j++) ok = fs.get(j).size() > 1 || tab[r][j].equals(b[j]);
                        if (!ok) continue;
                        tried++;
                        List<BigInteger> g = null;
                        for (int j = 0; j < m; j++) {
                            if (fs.get(j).size() <= 1) continue;
                            List<BigInteger> f = new ArrayList<>(fs.get(j));
                            f.set(0, f.get(0).subtract(tab[r][j]).mod(s.p));
                            g = g == null ? f : gcd(g, f, s.p);
                        }
                        if (g != null && g.size() > 1) roots(g, s.p, out);
                    }
                }
            } else {
                Integer h = s.idx.get(s.ctab[ci]).get(key(y));
                int h0 = h == null ? 0 : h;
                for (int i = 0; i < 2 * tab.length && out.size() < max; i++) {
                    int r = i == 0 ? h0 : (i & 1) == 1 ? h0 + (i + 1) / 2 : h0 - i / 2;
                    if (r < 0 || r >= tab.length) continue;
                    BigInteger x = null;
                    boolean ok = true;
                    for (int j = 0; j < m && ok; j++) {
                        if (sl[j].signum() == 0) ok = tab[r][j].equals(b[j]);
                        else {
                            BigInteger z = tab[r][j].subtract(b[j]).multiply(sl[j]).mod(s.p);
                            ok = x == null || x.equals(z);
                            x = z;
                        }
                    }
                    if (ok && x != null) out.add(x);
                }
            }
        }
        ValueVec vv = new ValueVec();
        for (BigInteger x : out) vv.addElement(str(x));
        Value r = new SetEnumValue(vv, false);
        r.normalize();
        return r;
    }

    // ---------------------------------------------------------------- polynomials over F_p, lowest coefficient first
    /** Roots of a product: the roots of its factors. */
    static void factors(E e, BigInteger[] a, boolean[] isv, BigInteger p, TreeSet<BigInteger> out) {
        if (e.k == '*') { factors(e.a, a, isv, p, out); factors(e.b, a, isv, p, out); return; }
        if (e.k == '-') { factors(e.a, a, isv, p, out); return; }
        List<BigInteger> f = poly(e, a, isv, p);
        if (!f.isEmpty()) roots(f, p, out);
        else if (p.bitLength() < 16) for (BigInteger x = Z; x.compareTo(p) < 0; x = x.add(ONE)) out.add(x);
    }
    static List<BigInteger> trim(List<BigInteger> f) { while (!f.isEmpty() && f.get(f.size() - 1).signum() == 0) f.remove(f.size() - 1); return f; }
    static List<BigInteger> poly(E e, BigInteger[] a, boolean[] isv, BigInteger p) {
        List<BigInteger> f = new ArrayList<>();
        switch (e.k) {
            case 'c': f.add(e.c); break;
            case 'v': if (isv[e.h]) { f.add(Z); f.add(ONE); } else f.add(a[e.h]); break;
            case '-': for (BigInteger x : poly(e.a, a, isv, p)) f.add(x.negate().mod(p)); break;
            case '+': {
                List<BigInteger> g = poly(e.a, a, isv, p), h = poly(e.b, a, isv, p);
                for (int i = 0; i < Math.max(g.size(), h.size()); i++) f.add((i < g.size() ? g.get(i) : Z).add(i < h.size() ? h.get(i) : Z).mod(p));
                break;
            }
            default: f = mul(poly(e.a, a, isv, p), poly(e.b, a, isv, p), p);
        }
        return trim(f);
    }
    static List<BigInteger> mul(List<BigInteger> g, List<BigInteger> h, BigInteger p) {
        List<BigInteger> f = new ArrayList<>(Collections.nCopies(Math.max(0, g.size() + h.size() - 1), Z));
        for (int i = 0; i < g.size(); i++) for (int j = 0; j < h.size(); j++) f.set(i + j, f.get(i + j).add(g.get(i).multiply(h.get(j))).mod(p));
        return trim(f);
    }
    static List<BigInteger> rem(List<BigInteger> f, List<BigInteger> g, BigInteger p) {
        List<BigInteger> r = new ArrayList<>(f);
        BigInteger li = g.get(g.size() - 1).modInverse(p);
        trim(r);
        while (r.size() >= g.size()) {
            BigInteger q = r.get(r.size() - 1).multiply(li).mod(p);
            int o = r.size() - g.size();
            for (int i = 0; i < g.size(); i++) r.set(o + i, r.get(o + i).subtract(q.multiply(g.get(i))).mod(p));
            trim(r);
        }
        return r;
    }
    static List<BigInteger> quo(List<BigInteger> f, List<BigInteger> g, BigInteger p) {
        List<BigInteger> r = new ArrayList<>(f), out = new ArrayList<>(Collections.nCopies(Math.max(0, f.size() - g.size() + 1), Z));
        BigInteger li = g.get(g.size() - 1).modInverse(p);
        while (r.size() >= g.size()) {
            BigInteger q = r.get(r.size() - 1).multiply(li).mod(p);
            int o = r.size() - g.size();
            out.set(o, q);
            for (int i = 0; i < g.size(); i++) r.set(o + i, r.get(o + i).subtract(q.multiply(g.get(i))).mod(p));
            trim(r);
        }
        return trim(out);
    }
    static List<BigInteger> gcd(List<BigInteger> f, List<BigInteger> g, BigInteger p) {
        f = trim(new ArrayList<>(f)); g = trim(new ArrayList<>(g));
        while (!g.isEmpty()) { List<BigInteger> r = rem(f, g, p); f = g; g = r; }
        return f;
    }
    static List<BigInteger> pow(List<BigInteger> b, BigInteger e, List<BigInteger> m, BigInteger p) {
        List<BigInteger> r = new ArrayList<>(List.of(ONE));
        for (int i = e.bitLength() - 1; i >= 0; i--) {
            r = rem(mul(r, r, p), m, p);
            if (e.testBit(i)) r = rem(mul(r, b, p), m, p);
        }
        return r;
    }
    static void roots(List<BigInteger> f, BigInteger p, TreeSet<BigInteger> out) {
        if (f.size() <= 1) return;
        if (f.size() == 2) { out.add(f.get(0).negate().multiply(f.get(1).modInverse(p)).mod(p)); return; }
        if (p.bitLength() < 16) {
            for (BigInteger x = Z; x.compareTo(p) < 0; x = x.add(ONE)) {
                BigInteger y = Z;
                for (int i = f.size() - 1; i >= 0; i--) y = y.multiply(x).add(f.get(i)).mod(p);
                if (y.signum() == 0) out.add(x);
            }
            return;
        }
        List<BigInteger> x = new ArrayList<>(List.of(Z, ONE)), h = pow(x, p, f, p);
        while (h.size() < 2) h.add(Z);
        h.set(1, h.get(1).subtract(ONE).mod(p));
        split(gcd(f, trim(h), p), p, out);
    }
    /** f is a product of distinct linear factors. */
    static void split(List<BigInteger> f, BigInteger p, TreeSet<BigInteger> out) {
        if (f.size() <= 2) { if (f.size() == 2) roots(f, p, out); return; }
        for (int s = 0; ; s++) {
            List<BigInteger> h = pow(new ArrayList<>(List.of(BigInteger.valueOf(s), ONE)), p.subtract(ONE).shiftRight(1), f, p);
            if (h.isEmpty()) h.add(Z);
            h.set(0, h.get(0).subtract(ONE).mod(p));
            List<BigInteger> g = gcd(f, trim(h), p);
            if (g.size() > 1 && g.size() < f.size()) { split(g, p, out); split(quo(f, g, p), p, out); return; }
        }
    }
}
