import java.math.BigInteger;
import java.util.*;
import tlc2.value.impl.*;

/** ForcedVars of Forced.tla: a part of what the constraints determine. */
public class Forced {
    static final BigInteger Z = BigInteger.ZERO, ONE = BigInteger.ONE;

    /** All values a variable can have lie in [0, max] and use only the bits of mask; set: the values themselves if there are few. */
    static final class Dom {
        BigInteger max, mask; TreeSet<BigInteger> set;
        static Dom of(Collection<BigInteger> vs) {
            Dom d = new Dom();
            d.max = Z; d.mask = Z;
            for (BigInteger x : vs) { d.max = d.max.max(x); d.mask = d.mask.or(x); }
            if (vs.size() <= 64) d.set = new TreeSet<>(vs);
            return d;
        }
        boolean in(BigInteger x) { return set != null ? set.contains(x) : x.compareTo(max) <= 0 && x.andNot(mask).signum() == 0; }
        String sig() { return set != null ? set.toString() : max + "/" + mask; }
    }
    /** k + sum of co * variable, plus (if rest) something that depends on determined variables only */
    static final class Lin {
        BigInteger k = Z; boolean rest; TreeMap<Integer, BigInteger> co = new TreeMap<>();
        boolean isConst() { return !rest && co.isEmpty(); }
    }

    final Circ.Sys s; final BigInteger p, half;
    final boolean[] known; final Dom[] dom; boolean[] noDom;
    boolean all;   // lin: take determined variables as variables
    final Map<String, Object> memo = new HashMap<>();
    boolean changed;

    Forced(Circ.Sys s0, boolean[] known0, boolean[] small) {
        this.p = s0.p; this.half = p.shiftRight(1);
        Circ.Sys s = this.s = aux(s0);
        boolean[] known = this.known = Arrays.copyOf(known0, s.n + 1);
        dom = new Dom[s.n + 1];
        BigInteger m16 = BigInteger.valueOf(65535);
        for (int v = 1; v <= s0.n; v++) if (small[v] && p.compareTo(m16) > 0) { dom[v] = new Dom(); dom[v].max = dom[v].mask = m16; }
    }
    void know(int v) { if (!known[v]) { known[v] = true; changed = true; } }
    /** Take the intersection of what is known and d. */
    boolean narrow(int v, Dom d) {
        Dom o = dom[v], n = d;
        if (o != null) {
            n = new Dom();
            n.max = o.max.min(d.max);
            n.mask = o.mask.and(d.mask);
            if (o.set != null || d.set != null) {
                TreeSet<BigInteger> t = new TreeSet<>();
                for (BigInteger x : o.set != null ? o.set : d.set) if (o.in(x) && d.in(x)) t.add(x);
                n = Dom.of(t);
            }
            if (n.max.equals(o.max) && n.mask.equals(o.mask) && (n.set == null) == (o.set == null) && (n.set == null || n.set.size() == o.set.size())) return false;
        }
        dom[v] = n;
        changed = true;
        return true;
    }
    // ---------------------------------------------------------------- auxiliary variables
    static Circ.E leaf(char k, BigInteger c, int h) { Circ.E e = new Circ.E(); e.k = k; e.c = c; e.h = h; return e; }
    static Circ.E op(char k, Circ.E a, Circ.E b) { Circ.E e = new Circ.E(); e.k = k; e.a = a; e.b = b; return e; }
    static void factors(Circ.E e, List<Circ.E> out) {
        if (e.k == '*') { factors(e.a, out); factors(e.b, out); } else if (e.k == '-') factors(e.a, out); else out.add(e);
    }
    /** s with a new variable for each sum of variables that a lookup looks up, or whose values a product limits */
    Circ.Sys aux(Circ.Sys s) {
        class Sum { Lin l; int c; int tab = -1; int col; List<BigInteger> roots; }
        List<Sum> sums = new ArrayList<>();
        Forced f = new Forced(s);
        for (int c = 0; c < s.ct.length; c++) {
            Circ.E[] t = s.t[s.ct[c]];
            if (s.ctab[c] >= 0) {
                for (int j = 0; j < t.length; j++) {
                    Lin l = f.lin(t[j], s.ca[c]);
                    if (l == null || l.co.size() < 2 || l.co.size() > 12) continue;
                    Sum u = new Sum(); u.l = l; u.c = c; u.tab = s.ctab[c]; u.col = j; sums.add(u);
                }
                continue;
            }
            for (Circ.E e : t) {
                if (e.k != '*' && e.k != '-') continue;
                List<Circ.E> fs = new ArrayList<>();
                factors(e, fs);
                Sum u = new Sum(); u.c = c; u.roots = new ArrayList<>();
                boolean ok = true;
                for (Circ.E g : fs) {
                    Lin l = f.lin(g, s.ca[c]);
                    if (l == null || l.isConst() && l.k.signum() == 0) { ok = false; break; }
                    if (l.isConst()) continue;
                    if (u.l == null) { if (l.co.size() < 2 || l.co.size() > 12) { ok = false; break; } u.l = l; u.roots.add(Z); continue; }
                    if (!l.co.keySet().equals(u.l.co.keySet())) { ok = false; break; }
                    f.scale(l, l.co.firstEntry().getValue().modInverse(p).multiply(u.l.co.firstEntry().getValue()).mod(p));
                    if (!l.co.equals(u.l.co)) { ok = false; break; }
                    u.roots.add(u.l.k.subtract(l.k).mod(p));   // l = u.l - root
                }
                if (ok && u.roots.size() >= 2) sums.add(u);
            }
        }
        int n = s.n, A = sums.size();
        Circ.Sys z = new Circ.Sys();
        z.p = p; z.n = n + A; z.tab = s.tab;
        z.w = new BigInteger[s.w.length + A];
        for (int q = 0; q < s.w.length; q++) z.w[q <= n ? q : q + A] = s.w[q];
        for (int q = 1; q <= A; q++) z.w[n + q] = Z;
        List<Circ.E[]> ts = new ArrayList<>(Arrays.asList(s.t));
        List<int[]> ca = new ArrayList<>();
        List<Integer> ct = new ArrayList<>(), ctab = new ArrayList<>();
        for (int c = 0; c < s.ct.length; c++) {
            int[] a = s.ca[c].clone();
            for (int j = 0; j < a.length; j++) if (a[j] > n) a[j] += A;
            ca.add(a); ct.add(s.ct[c]); ctab.add(s.ctab[c]);
        }
        Map<String, Integer> tmpl = new HashMap<>();
        for (int q = 0; q < A; q++) {
            Sum u = sums.get(q);
            int y = n + q + 1, m = u.l.co.size(), i = 0;
            int[] a = new int[m + 1];
            Circ.E e = op('+', leaf('c', u.l.k, 0), op('*', leaf('c', p.subtract(ONE), 0), leaf('v', null, m)));
            StringBuilder k = new StringBuilder("s" + u.l.k);
            for (Map.Entry<Integer, BigInteger> x : u.l.co.entrySet()) {
                a[i] = x.getKey();
                e = op('+', e, op('*', leaf('c', x.getValue(), 0), leaf('v', null, i++)));
                k.append(',').append(x.getValue());
            }
            a[m] = y;
            Circ.E ee = e;
            ct.add(tmpl.computeIfAbsent(k.toString(), x -> { ts.add(new Circ.E[] {ee}); return ts.size() - 1; }));
            ca.add(a); ctab.add(-1);
            if (u.tab >= 0) {
                int[] b = Arrays.copyOf(ca.get(u.c), ca.get(u.c).length + 1);
                b[b.length - 1] = y;
                int from = ct.get(u.c), col = u.col;
                ct.set(u.c, tmpl.computeIfAbsent("l" + from + "," + col + "," + b.length, x -> {
                    Circ.E[] t = ts.get(from).clone();
                    t[col] = leaf('v', null, b.length - 1);
                    ts.add(t);
                    return ts.size() - 1;
                }));
                ca.set(u.c, b);
            } else {
                ct.add(tmpl.computeIfAbsent("r" + u.roots, x -> {
                    Circ.E g = null;
                    for (BigInteger r : u.roots) { Circ.E h = op('+', leaf('v', null, 0), leaf('c', r.negate().mod(p), 0)); g = g == null ? h : op('*', g, h); }
                    ts.add(new Circ.E[] {g});
                    return ts.size() - 1;
                }));
                ca.add(new int[] {y}); ctab.add(-1);
            }
        }
        z.t = ts.toArray(new Circ.E[0][]);
        z.ca = ca.toArray(new int[0][]);
        z.ct = ct.stream().mapToInt(x -> x).toArray();
        z.ctab = ctab.stream().mapToInt(x -> x).toArray();
        return z;
    }
    private Forced(Circ.Sys s) { this.s = s; this.p = s.p; this.half = null; this.known = null; this.dom = null; this.all = true; }

    Lin lin(Circ.E e, int[] a) {
        Lin l;
        switch (e.k) {
            case 'c': l = new Lin(); l.k = e.c; return l;
            case 'v':
                l = new Lin();
                int v = a[e.h];
                if (v > s.n) l.k = s.w[v];
                else if (!all && known[v]) l.rest = true;
                else l.co.put(v, ONE);
                return l;
            case '-': l = lin(e.a, a); return l == null ? null : scale(l, p.subtract(ONE));
            case '+': {
                Lin x = lin(e.a, a), y = x == null ? null : lin(e.b, a);
                if (y == null) return null;
                x.k = x.k.add(y.k).mod(p); x.rest |= y.rest;
                for (Map.Entry<Integer, BigInteger> q : y.co.entrySet()) x.co.merge(q.getKey(), q.getValue(), (g, h) -> g.add(h).mod(p));
                x.co.values().removeIf(g -> g.signum() == 0);
                return x;
            }
            default: {
                Lin x = lin(e.a, a), y = x == null ? null : lin(e.b, a);
                if (y == null) return null;
                if (x.isConst()) return scale(y, x.k);
                if (y.isConst()) return scale(x, y.k);
                if (x.co.isEmpty() && y.co.isEmpty()) { l = new Lin(); l.rest = true; return l; }
                return null;
            }
        }
    }
    Lin scale(Lin l, BigInteger c) {
        if (c.signum() == 0) return new Lin();
        l.k = l.k.multiply(c).mod(p);
        l.co.replaceAll((v, x) -> x.multiply(c).mod(p));
        return l;
    }
    static void holes(Circ.E e, TreeSet<Integer> out) {
        if (e.k == 'v') out.add(e.h);
        else if (e.k != 'c') { holes(e.a, out); if (e.b != null) holes(e.b, out); }
    }

    // ---------------------------------------------------------------- domains
    void equationDomain(int c) {
        int[] a = s.ca[c];
        TreeSet<Integer> vs = new TreeSet<>();
        for (int q : a) if (q <= s.n) vs.add(q);
        if (vs.size() != 1) return;
        int v = vs.first();
        StringBuilder k = new StringBuilder("e" + s.ct[c]);
        boolean[] isv = new boolean[a.length];
        BigInteger[] arg = new BigInteger[a.length];
        for (int j = 0; j < a.length; j++) { isv[j] = a[j] == v; arg[j] = s.w[a[j]]; k.append(isv[j] ? ",v" : "," + arg[j]); }
        Object r = memo.computeIfAbsent(k.toString(), x -> {
            List<BigInteger> f = null;
            for (Circ.E e : s.t[s.ct[c]]) { List<BigInteger> g = Circ.poly(e, arg, isv, p); f = f == null ? g : Circ.gcd(f, g, p); }
            if (f == null || f.isEmpty()) return "any";
            TreeSet<BigInteger> out = new TreeSet<>();
            Circ.roots(f, p, out);
            return Dom.of(out);
        });
        if (r instanceof Dom) narrow(v, (Dom) r);
    }
    /** k + sum of c_i x_i = 0 bounds each variable by the domains of the others */
    void sumDomain(int c) {
        for (Circ.E e : s.t[s.ct[c]]) {
            all = true;
            Lin l = lin(e, s.ca[c]);
            all = false;
            if (l == null || l.rest || l.co.size() < 2 || l.co.size() > 12) continue;
            int open = 0, nopen = 0;
            for (int v : l.co.keySet()) if (dom[v] == null) { open = v; nopen++; }
            if (nopen > 1) continue;
            for (int v : l.co.keySet()) {
                if (nopen == 1 && v != open) continue;
                BigInteger inv = p.subtract(l.co.get(v)).modInverse(p), lo = signed(l.k.multiply(inv)), hi = lo, used = Z;
                boolean bits = lo.signum() == 0;
                for (Map.Entry<Integer, BigInteger> q : l.co.entrySet()) {
                    if (q.getKey() == v) continue;
                    BigInteger k = signed(q.getValue().multiply(inv)), w = k.multiply(dom[q.getKey()].max);
                    if (k.signum() < 0) { lo = lo.add(w); bits = false; } else hi = hi.add(w);
                    if (bits && k.bitCount() == 1) { BigInteger m = dom[q.getKey()].mask.multiply(k); bits = m.and(used).signum() == 0; used = used.or(m); } else bits = false;
                }
                if (lo.signum() < 0 || hi.compareTo(p) >= 0) continue;
                Dom d = new Dom();
                d.max = hi;
                d.mask = bits ? used : ONE.shiftLeft(hi.bitLength()).subtract(ONE);
                if (dom[v] == null || d.max.compareTo(dom[v].max) < 0) narrow(v, d);
            }
        }
    }
    /** a sum that is zero as a sum of integers bounds each of its terms by the others */
    void integerDomain(int c) {
        for (Circ.E e : s.t[s.ct[c]]) {
            all = true;
            Lin l = lin(e, s.ca[c]);
            all = false;
            if (l == null || l.rest || l.co.size() < 1 || l.co.size() > 12) continue;
            boolean open = false;
            for (int v : l.co.keySet()) open |= dom[v] == null;
            if (open) continue;
            scales:
            for (BigInteger by : new LinkedHashSet<>(l.co.values())) {
                BigInteger inv = by.modInverse(p), k0 = signed(l.k.multiply(inv)), lo = k0, hi = k0;
                for (Map.Entry<Integer, BigInteger> q : l.co.entrySet()) {
                    BigInteger w = signed(q.getValue().multiply(inv)).multiply(dom[q.getKey()].max);
                    if (w.signum() < 0) lo = lo.add(w); else hi = hi.add(w);
                    if (hi.compareTo(p) >= 0 || lo.negate().compareTo(p) >= 0) continue scales;
                }
                for (int v : l.co.keySet()) {
                    BigInteger k = signed(l.co.get(v).multiply(inv));
                    // k x = -(the rest), at most -lo if k > 0 and hi (in size) if k < 0, without its own part
                    BigInteger top = (k.signum() > 0 ? lo.negate() : hi).divide(k.abs());
                    if (top.signum() < 0 || top.compareTo(dom[v].max) >= 0) continue;
                    Dom d = new Dom();
                    d.max = top;
                    d.mask = ONE.shiftLeft(top.bitLength()).subtract(ONE);
                    narrow(v, d);
                }
            }
        }
    }
    BigInteger signed(BigInteger x) { x = x.mod(p); return x.compareTo(half) > 0 ? x.subtract(p) : x; }
    /** columns of a lookup: the variable of each (0: constant, -1: something else) with its factor and offset */
    void lookup(int c) {
        int[] a = s.ca[c];
        Circ.E[] t = s.t[s.ct[c]];
        int m = t.length;
        int[] var = new int[m]; BigInteger[] f = new BigInteger[m], o = new BigInteger[m];
        StringBuilder k = new StringBuilder("l" + s.ct[c] + "," + s.ctab[c]);
        for (int j = 0; j < m; j++) {
            TreeSet<Integer> hs = new TreeSet<>(), vs = new TreeSet<>();
            holes(t[j], hs);
            for (int h : hs) if (a[h] <= s.n) vs.add(a[h]);
            if (vs.isEmpty()) { var[j] = 0; o[j] = t[j].ev(Circ.args(s, Collections.emptyMap(), c), p); k.append(";c").append(o[j]); continue; }
            var[j] = -1;
            if (vs.size() == 1) {
                int v = vs.first();
                boolean[] isv = new boolean[a.length];
                BigInteger[] arg = new BigInteger[a.length];
                for (int i = 0; i < a.length; i++) { isv[i] = a[i] == v; arg[i] = s.w[a[i]]; }
                List<BigInteger> g = Circ.poly(t[j], arg, isv, p);
                if (g.size() == 2) { var[j] = v; o[j] = g.get(0); f[j] = g.get(1).modInverse(p); }
            }
            if (var[j] > 0) k.append(";v").append(o[j]).append(',').append(f[j]).append(',').append(dom[var[j]] == null ? "*" : dom[var[j]].sig());
            else k.append(";x");
            for (int i = 0; i < j; i++) if (var[j] > 0 && var[i] == var[j]) k.append("=").append(i);
        }
        String ks = k.toString();
        @SuppressWarnings("unchecked")
        List<BigInteger[]> rows = (List<BigInteger[]>) memo.computeIfAbsent(ks, x -> {
            List<BigInteger[]> out = new ArrayList<>();
            for (BigInteger[] r : s.tab[s.ctab[c]]) {
                BigInteger[] y = new BigInteger[m];
                boolean ok = true;
                for (int j = 0; j < m && ok; j++) {
                    if (var[j] == 0) { ok = r[j].equals(o[j]); y[j] = Z; }
                    else if (var[j] < 0) y[j] = r[j];
                    else {
                        y[j] = r[j].subtract(o[j]).multiply(f[j]).mod(p);
                        ok = dom[var[j]] == null || dom[var[j]].in(y[j]);
                        for (int i = 0; i < j && ok; i++) if (var[i] == var[j]) ok = y[i].equals(y[j]);
                    }
                }
                if (ok) out.add(y);
            }
            return out;
        });
        for (int j = 0; j < m; j++) if (var[j] > 0) {
            int jj = j;
            Dom d = (Dom) memo.computeIfAbsent(ks + "#" + j, x -> { LinkedHashSet<BigInteger> z = new LinkedHashSet<>(); for (BigInteger[] r : rows) z.add(r[jj]); return Dom.of(z); });
            narrow(var[j], d);
        }
        StringBuilder kn = new StringBuilder();
        boolean open = false;
        boolean[] given = new boolean[m];
        for (int j = 0; j < m; j++) {
            if (var[j] > 0) given[j] = known[var[j]];
            else if (var[j] == 0) given[j] = true;
            else { given[j] = true; TreeSet<Integer> hs = new TreeSet<>(); holes(t[j], hs); for (int h : hs) if (a[h] <= s.n && !known[a[h]]) given[j] = false; }
            kn.append(given[j] ? '1' : '0');
            open |= !given[j] && var[j] > 0;
        }
        if (!open) return;
        for (int j = 0; j < m; j++) if (!given[j] && var[j] > 0) {
            int jj = j;
            boolean fun = (Boolean) memo.computeIfAbsent(ks + "@" + kn + "#" + j, x -> {
                Map<String, BigInteger> g = new HashMap<>();
                for (BigInteger[] r : rows) {
                    StringBuilder q = new StringBuilder();
                    for (int i = 0; i < m; i++) if (given[i]) q.append(r[i].toString(36)).append(',');
                    BigInteger old = g.putIfAbsent(q.toString(), r[jj]);
                    if (old != null && !old.equals(r[jj])) return false;
                }
                return true;
            });
            if (fun) know(var[j]);
        }
    }

    // ---------------------------------------------------------------- sums
    static BigInteger gcdc(List<Map.Entry<Integer, BigInteger>> ts, int from) { BigInteger g = Z; for (int i = from; i < ts.size(); i++) g = g.gcd(ts.get(i).getValue()); return g; }
    /** the integer sum of these terms is determined */
    void split(List<Map.Entry<Integer, BigInteger>> ts) {
        if (ts.size() == 1) { know(ts.get(0).getKey()); return; }
        if (ts.isEmpty()) return;
        BigInteger width = Z;
        for (int i = 1; i < ts.size(); i++) {
            width = width.add(ts.get(i - 1).getValue().abs().multiply(dom[ts.get(i - 1).getKey()].max));
            BigInteger g = gcdc(ts, i);
            if (width.compareTo(g) < 0) { split(ts.subList(0, i)); split(ts.subList(i, ts.size())); return; }
        }
        BigInteger used = Z;
        int sg = ts.get(0).getValue().signum();
        for (Map.Entry<Integer, BigInteger> t : ts) {
            BigInteger c = t.getValue().abs();
            if (t.getValue().signum() != sg || c.bitCount() != 1) return;
            BigInteger m = dom[t.getKey()].mask.multiply(c);
            if (m.and(used).signum() != 0) return;
            used = used.or(m);
        }
        for (Map.Entry<Integer, BigInteger> t : ts) know(t.getKey());
    }
    void sum(TreeMap<Integer, BigInteger> row) {
        tries:
        for (BigInteger by : new LinkedHashSet<>(row.values())) {
            BigInteger inv = by.modInverse(p), width = Z;
            List<Map.Entry<Integer, BigInteger>> ts = new ArrayList<>();
            for (Map.Entry<Integer, BigInteger> q : row.entrySet()) {
                BigInteger c = q.getValue().multiply(inv).mod(p);
                if (c.compareTo(half) > 0) c = c.subtract(p);
                width = width.add(c.abs().multiply(dom[q.getKey()].max));
                if (width.compareTo(p) >= 0) continue tries;
                ts.add(new AbstractMap.SimpleEntry<>(q.getKey(), c));
            }
            ts.sort((x, y) -> x.getValue().abs().compareTo(y.getValue().abs()));
            split(ts);
        }
    }
    static void reduce(TreeMap<Integer, BigInteger> row, TreeMap<Integer, BigInteger> pr, int v, BigInteger p) {
        BigInteger k = row.get(v);
        for (Map.Entry<Integer, BigInteger> q : pr.entrySet()) {
            BigInteger x = row.getOrDefault(q.getKey(), Z).subtract(k.multiply(q.getValue())).mod(p);
            if (x.signum() == 0) row.remove(q.getKey()); else row.put(q.getKey(), x);
        }
    }
    void sums() {
        Map<Integer, TreeMap<Integer, BigInteger>> piv = new HashMap<>();
        List<TreeMap<Integer, BigInteger>> ranged = new ArrayList<>();
        for (int c = 0; c < s.ct.length; c++) {
            if (s.ctab[c] >= 0 || done[c]) continue;
            boolean all = true;
            for (int q : s.ca[c]) all &= q > s.n || known[q];
            if (all) { done[c] = true; continue; }
            for (Circ.E e : s.t[s.ct[c]]) {
                Lin l = lin(e, s.ca[c]);
                if (l == null || l.co.isEmpty()) continue;
                TreeMap<Integer, BigInteger> row = l.co;
                if (row.size() == 1) { know(row.firstKey()); continue; }
                while (true) {
                    int hit = 0, free = 0;
                    for (int v : row.keySet()) if (dom[v] == null) { if (piv.containsKey(v)) { hit = v; break; } free = v; }
                    if (hit != 0) { reduce(row, piv.get(hit), hit, p); continue; }
                    if (free == 0) { if (!row.isEmpty()) ranged.add(row); break; }
                    BigInteger inv = row.get(free).modInverse(p);
                    row.replaceAll((v, x) -> x.multiply(inv).mod(p));
                    piv.put(free, row);
                    break;
                }
            }
        }
        // variables of known domain that are now alone, and sums among the rest
        for (TreeMap<Integer, BigInteger> row : ranged) {
            row.keySet().removeIf(v -> known[v]);
            if (!row.isEmpty()) sum(row);
        }
        for (Map.Entry<Integer, TreeMap<Integer, BigInteger>> e : piv.entrySet()) {
            boolean alone = true;
            for (int v : e.getValue().keySet()) alone &= v == e.getKey() || known[v];
            if (alone) know(e.getKey());
        }
    }
    boolean[] done;
    void run() {
        done = new boolean[s.ct.length];
        for (int c = 0; c < s.ct.length; c++) if (s.ctab[c] < 0) equationDomain(c);
        do {
            changed = false;
            for (int c = 0; c < s.ct.length; c++) if (s.ctab[c] < 0 && !done[c]) { sumDomain(c); integerDomain(c); }
            for (int c = 0; c < s.ct.length; c++) if (s.ctab[c] >= 0) lookup(c);
            for (int v = 1; v <= s.n; v++) if (!known[v] && dom[v] != null && dom[v].set != null && dom[v].set.size() == 1) know(v);
            sums();
        } while (changed);
    }
    static boolean[] set(Value v, int n) {
        boolean[] b = new boolean[n + 1];
        for (Value x : ((SetEnumValue) v.toSetEnum()).elems.toArray()) if (x != null) { int i = ((IntValue) x).val; if (i >= 1 && i <= n) b[i] = true; }
        return b;
    }
    public static Value ForcedVars(final Value sys, final Value fix, final Value small) {
        Circ.Sys s = Circ.sys(sys);
        Forced f = new Forced(s, set(fix, s.n), set(small, s.n));
        f.run();
        ValueVec out = new ValueVec();
        for (int v = 1; v <= s.n; v++) if (f.known[v]) out.addElement(IntValue.gen(v));
        return new SetEnumValue(out, true);
    }
    public static Value ForcedMax(final Value sys, final Value fix, final Value small) {
        Circ.Sys s = Circ.sys(sys);
        Forced f = new Forced(s, set(fix, s.n), set(small, s.n));
        f.run();
        Value[] out = new Value[s.n];
        for (int v = 1; v <= s.n; v++) out[v - 1] = Circ.str(f.dom[v] == null ? s.p.subtract(ONE) : f.dom[v].max);
        return new TupleValue(out);
    }
}
