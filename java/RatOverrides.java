import java.math.BigInteger;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/**
 * TLC implementation of the operators that spec/Rat.tla declares: exact arithmetic on rationals
 * written as strings ("7", "-3/4"). TLC integers have 32 bits; these do not overflow. Some operators of
 * spec/Num.tla are here too, only to be faster.
 * "nan", "inf" and "-inf" are absorbed as "nan" by arithmetic, so that no event makes TLC stop.
 */
public class RatOverrides implements ITLCOverrides {
    public Class[] get() { return new Class[] { RatOverrides.class }; }

    static final class Q {
        final BigInteger n, d;
        Q(BigInteger n, BigInteger d) {
            if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
            BigInteger g = n.gcd(d);
            if (!g.equals(BigInteger.ONE) && g.signum() != 0) { n = n.divide(g); d = d.divide(g); }
            this.n = n; this.d = d;
        }
    }

    static Q parse(Value v) {
        if (v instanceof IntValue) return new Q(BigInteger.valueOf(((IntValue) v).val), BigInteger.ONE);
        if (!(v instanceof StringValue)) return null;
        String s = ((StringValue) v).getVal().toString();
        try {
            int k = s.indexOf('/');
            if (k < 0) return new Q(new BigInteger(s), BigInteger.ONE);
            BigInteger d = new BigInteger(s.substring(k + 1));
            if (d.signum() == 0) return null;
            return new Q(new BigInteger(s.substring(0, k)), d);
        } catch (NumberFormatException e) {
            return null;
        }
    }

    static final StringValue NAN = new StringValue("nan");

    static Value show(Q q) {
        return new StringValue(q.d.equals(BigInteger.ONE) ? q.n.toString() : q.n + "/" + q.d);
    }

    @TLAPlusOperator(identifier = "RAdd", module = "Rat", warn = false)
    public static Value add(Value a, Value b) {
        Q x = parse(a), y = parse(b);
        if (x == null || y == null) return NAN;
        return show(new Q(x.n.multiply(y.d).add(y.n.multiply(x.d)), x.d.multiply(y.d)));
    }

    @TLAPlusOperator(identifier = "RSub", module = "Rat", warn = false)
    public static Value sub(Value a, Value b) {
        Q x = parse(a), y = parse(b);
        if (x == null || y == null) return NAN;
        return show(new Q(x.n.multiply(y.d).subtract(y.n.multiply(x.d)), x.d.multiply(y.d)));
    }

    @TLAPlusOperator(identifier = "RMul", module = "Rat", warn = false)
    public static Value mul(Value a, Value b) {
        Q x = parse(a), y = parse(b);
        if (x == null || y == null) return NAN;
        return show(new Q(x.n.multiply(y.n), x.d.multiply(y.d)));
    }

    @TLAPlusOperator(identifier = "RDiv", module = "Rat", warn = false)
    public static Value div(Value a, Value b) {
        Q x = parse(a), y = parse(b);
        if (x == null || y == null || y.n.signum() == 0) return NAN;
        return show(new Q(x.n.multiply(y.d), x.d.multiply(y.n)));
    }

    @TLAPlusOperator(identifier = "RLe", module = "Rat", warn = false)
    public static Value le(Value a, Value b) {
        Q x = parse(a), y = parse(b);
        if (x == null || y == null) return BoolValue.ValFalse;
        return x.n.multiply(y.d).compareTo(y.n.multiply(x.d)) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    /** Numbers with long texts are rounded to 256 significant bits, others are returned as they are. */
    static Q rnd(Q x) {
        int nb = x.n.bitLength(), db = x.d.bitLength();
        if (nb + db <= 640) return x;
        int k = 256 - (nb - db);
        BigInteger n = x.n, d = x.d;
        if (k > 0) n = n.shiftLeft(k); else d = d.shiftLeft(-k);
        BigInteger q = n.divide(d);
        return k > 0 ? new Q(q, BigInteger.ONE.shiftLeft(k)) : new Q(q.shiftLeft(-k), BigInteger.ONE);
    }

    @TLAPlusOperator(identifier = "RRound", module = "Rat", warn = false)
    public static Value round(Value a) {
        Q x = parse(a);
        return x == null ? NAN : show(rnd(x));
    }

    // ---- the operators of Num that have a definition in TLA+, faster; NumCheck compares the two ----

    static final Q ZERO = new Q(BigInteger.ZERO, BigInteger.ONE), ONE = new Q(BigInteger.ONE, BigInteger.ONE);
    static Q plus(Q x, Q y) { return x == null || y == null ? null : new Q(x.n.multiply(y.d).add(y.n.multiply(x.d)), x.d.multiply(y.d)); }
    static Q minus(Q x, Q y) { return x == null || y == null ? null : new Q(x.n.multiply(y.d).subtract(y.n.multiply(x.d)), x.d.multiply(y.d)); }
    static Q times(Q x, Q y) { return x == null || y == null ? null : new Q(x.n.multiply(y.n), x.d.multiply(y.d)); }
    static Q over(Q x, Q y) { return x == null || y == null || y.n.signum() == 0 ? null : new Q(x.n.multiply(y.d), x.d.multiply(y.n)); }
    static Q abs(Q x) { return x == null ? null : x.n.signum() < 0 ? new Q(x.n.negate(), x.d) : x; }
    static Q cut(Q x) { return x == null ? null : rnd(x); }
    static Value out(Q x) { return x == null ? NAN : show(x); }

    static Q[] seq(Value v) {
        Value[] e = ((TupleValue) v.toTuple()).elems;
        Q[] r = new Q[e.length];
        for (int i = 0; i < e.length; i++) r[i] = parse(e[i]);
        return r;
    }
    static Value tuple(Q[] x) {
        Value[] e = new Value[x.length];
        for (int i = 0; i < e.length; i++) e[i] = out(x[i]);
        return new TupleValue(e);
    }

    @TLAPlusOperator(identifier = "RSum", module = "Num", warn = false)
    public static Value sum(Value s) {
        Q a = ZERO;
        for (Q x : seq(s)) a = cut(plus(a, x));
        return out(a);
    }

    @TLAPlusOperator(identifier = "RProd", module = "Num", warn = false)
    public static Value prod(Value s) {
        Q a = ONE;
        for (Q x : seq(s)) a = cut(times(a, x));
        return out(a);
    }

    @TLAPlusOperator(identifier = "Dot", module = "Num", warn = false)
    public static Value dot(Value s, Value t) {
        Q[] x = seq(s), y = seq(t);
        Q a = ZERO;
        for (int i = 0; i < x.length; i++) a = cut(plus(a, times(x[i], y[i])));
        return out(a);
    }

    @TLAPlusOperator(identifier = "DotAbs", module = "Num", warn = false)
    public static Value dotAbs(Value s, Value t) {
        Q[] x = seq(s), y = seq(t);
        Q a = ZERO;
        for (int i = 0; i < x.length; i++) a = cut(plus(a, abs(times(x[i], y[i]))));
        return out(a);
    }

    @TLAPlusOperator(identifier = "At", module = "Num", warn = false)
    public static Value at(Value p, Value t) {
        Q[] c = seq(p);
        Q y = parse(t), a = ZERO;
        for (int i = c.length - 1; i >= 0; i--) a = cut(plus(times(a, y), c[i]));
        return out(a);
    }

    static Q denom(Q[] s, int j) {
        Q a = ONE;
        for (int r = 0; r < s.length; r++) if (r != j) a = cut(times(a, minus(s[j], s[r])));
        return a;
    }
    static Q lag(Q[] s, int j, Q t) {
        Q a = ONE;
        for (int r = 0; r < s.length; r++) if (r != j) a = cut(times(a, minus(t, s[r])));
        return cut(over(a, denom(s, j)));
    }

    @TLAPlusOperator(identifier = "LagRow", module = "Num", warn = false)
    public static Value lagRow(Value s, Value t) {
        Q[] x = seq(s), r = new Q[x.length];
        Q y = parse(t);
        for (int j = 0; j < x.length; j++) r[j] = lag(x, j, y);
        return tuple(r);
    }

    @TLAPlusOperator(identifier = "SlopeRow", module = "Num", warn = false)
    public static Value slopeRow(Value s, Value jj) {
        Q[] x = seq(s), r = new Q[x.length];
        int j = ((IntValue) jj).val - 1;
        for (int k = 0; k < x.length; k++) {
            if (k != j) {
                r[k] = cut(over(denom(x, j), times(denom(x, k), minus(x[j], x[k]))));
                continue;
            }
            Q a = ZERO;
            for (int i = 0; i < x.length; i++) if (i != j) a = cut(plus(a, over(ONE, minus(x[j], x[i]))));
            r[k] = a;
        }
        return tuple(r);
    }

    @TLAPlusOperator(identifier = "LagPoly", module = "Num", warn = false)
    public static Value lagPoly(Value s, Value jj) {
        Q[] x = seq(s), p = { ONE };
        int j = ((IntValue) jj).val - 1;
        for (int r = 0; r < x.length; r++) {
            if (r == j) continue;
            Q[] q = new Q[p.length + 1];
            for (int i = 0; i < q.length; i++)
                q[i] = cut(minus(i > 0 ? p[i - 1] : ZERO, i < p.length ? times(x[r], p[i]) : ZERO));
            p = q;
        }
        Q d = over(ONE, denom(x, j));
        for (int i = 0; i < p.length; i++) p[i] = cut(times(d, p[i]));
        return tuple(p);
    }

    @TLAPlusOperator(identifier = "PowerBound", module = "Num", warn = false)
    public static Value powerBound(Value s, Value jj, Value t) {
        Q[] x = seq(s);
        int j = ((IntValue) jj).val - 1;
        Q y = abs(parse(t)), a = ONE;
        for (int r = 0; r < x.length; r++) if (r != j) a = cut(times(a, plus(y, abs(x[r]))));
        return out(abs(cut(over(a, denom(x, j)))));
    }

    @TLAPlusOperator(identifier = "RFinite", module = "Rat", warn = false)
    public static Value finite(Value a) {
        return parse(a) == null ? BoolValue.ValFalse : BoolValue.ValTrue;
    }
}
