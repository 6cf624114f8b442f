package pyirfspec;

import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;
import java.util.Arrays;
import java.util.concurrent.ConcurrentHashMap;

import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.FcnRcdValue;
import tlc2.value.impl.Value;

/**
 * Extended-real arithmetic for the TLA+ module Num.  A number is a TLA+
 * string ("1.5", "1e-3", a C99 hexadecimal float such as "0x1.8p+3", "nan",
 * "inf", "-inf") or a TLA+ integer.  Inputs are read exactly; each operation
 * is correctly rounded to 40 significant digits.
 */
public class Num implements ITLCOverrides {
    @Override
    public Class<?>[] get() { return new Class<?>[] { Num.class }; }

    static final MathContext OUT = new MathContext(40, RoundingMode.HALF_EVEN);
    static final MathContext WK = new MathContext(60, RoundingMode.HALF_EVEN);

    static final int FIN = 0, NAN = 1, PINF = 2, NINF = 3;

    static final class N {
        final int k; final BigDecimal v;
        N(int k, BigDecimal v) { this.k = k; this.v = v; }
    }
    static final N QNAN = new N(NAN, null), INF = new N(PINF, null), MINF = new N(NINF, null);
    static final N ZERO = new N(FIN, BigDecimal.ZERO), ONE = new N(FIN, BigDecimal.ONE);
    static final ConcurrentHashMap<String, N> cache = new ConcurrentHashMap<>();

    static N parse(String s) {
        N n = cache.get(s);
        if (n != null) return n;
        n = parse0(s);
        if (cache.size() < 2000000) cache.put(s, n);
        return n;
    }
    static N parse0(String s) {
        switch (s) {
        case "nan": return QNAN;
        case "inf": return INF;
        case "-inf": return MINF;
        }
        if (s.startsWith("0x") || s.startsWith("-0x"))
            return new N(FIN, new BigDecimal(Double.parseDouble(s)));
        return new N(FIN, new BigDecimal(s));
    }
    static N arg(Value v) {
        if (v instanceof IntValue) return new N(FIN, BigDecimal.valueOf(((IntValue) v).val));
        if (v instanceof StringValue) {
            try { return parse(((StringValue) v).val.toString()); }
            catch (NumberFormatException e) { throw new RuntimeException("not a number: " + v); }
        }
        throw new RuntimeException("not a number: " + v);
    }
    static N fin(BigDecimal b) { return new N(FIN, b.round(OUT)); }
    static Value ret(N n) {
        String s;
        N canon = n;
        switch (n.k) {
        case NAN: s = "nan"; break;
        case PINF: s = "inf"; break;
        case NINF: s = "-inf"; break;
        default:
            BigDecimal b = n.v;
            if (b.signum() == 0) { s = "0"; canon = ZERO; }
            else {
                b = b.round(OUT);
                if (b.precision() > 1 || b.scale() != 0) b = b.stripTrailingZeros();
                s = b.toString();
                canon = new N(FIN, b);
            }
        }
        if (cache.size() < 2000000) cache.put(s, canon);
        return new StringValue(s);
    }
    static int sgn(N a) { return a.k == PINF ? 1 : a.k == NINF ? -1 : a.v.signum(); }

    // ---- elementary arithmetic -------------------------------------------------
    static N add(N a, N b) {
        if (a.k == NAN || b.k == NAN) return QNAN;
        if (a.k == FIN && b.k == FIN) return fin(a.v.add(b.v));
        if (a.k == FIN) return b;
        if (b.k == FIN) return a;
        return a.k == b.k ? a : QNAN;
    }
    static N neg(N a) {
        switch (a.k) { case NAN: return a; case PINF: return MINF; case NINF: return INF; default: return new N(FIN, a.v.negate()); }
    }
    static N mul(N a, N b) {
        if (a.k == NAN || b.k == NAN) return QNAN;
        if (a.k == FIN && b.k == FIN) return fin(a.v.multiply(b.v));
        int s = sgn(a) * sgn(b);
        return s > 0 ? INF : s < 0 ? MINF : QNAN;
    }
    static N div(N a, N b) {
        if (a.k == NAN || b.k == NAN) return QNAN;
        if (b.k == FIN) {
            if (b.v.signum() == 0) {
                int s = sgn(a);
                return s > 0 ? INF : s < 0 ? MINF : QNAN;
            }
            if (a.k == FIN) return new N(FIN, a.v.divide(b.v, OUT));
            return sgn(a) * sgn(b) > 0 ? INF : MINF;
        }
        if (a.k == FIN) return ZERO;
        return QNAN;
    }
    /** IEEE comparison: false (99) if either is nan. */
    static int cmp(N a, N b) {
        if (a.k == NAN || b.k == NAN) return 99;
        if (a.k == FIN && b.k == FIN) return a.v.compareTo(b.v);
        int x = a.k == PINF ? 2 : a.k == NINF ? -2 : 0;
        int y = b.k == PINF ? 2 : b.k == NINF ? -2 : 0;
        return Integer.compare(x, y);
    }
    static N sqrt(N a) {
        if (a.k == NAN || a.k == NINF) return QNAN;
        if (a.k == PINF) return INF;
        if (a.v.signum() < 0) return QNAN;
        if (a.v.signum() == 0) return ZERO;
        return new N(FIN, a.v.sqrt(OUT));
    }

    // ---- transcendental functions ----------------------------------------------
    static final BigDecimal LN2 = atanhSeries(BigDecimal.ONE.divide(new BigDecimal(3), WK)).multiply(BigDecimal.valueOf(2), WK);
    static final BigDecimal LN10 = ln(BigDecimal.TEN);
    static final BigDecimal PI = machin();
    static final BigDecimal TWO = BigDecimal.valueOf(2);

    static BigDecimal atanhSeries(BigDecimal x) {
        BigDecimal x2 = x.multiply(x, WK), t = x, s = x;
        for (int k = 3; k < 2000; k += 2) {
            t = t.multiply(x2, WK);
            BigDecimal d = t.divide(BigDecimal.valueOf(k), WK);
            s = s.add(d, WK);
            if (d.signum() == 0 || d.abs().compareTo(s.abs().movePointLeft(62)) < 0) break;
        }
        return s;
    }
    static BigDecimal atanSeries(BigDecimal x) {
        if (x.signum() == 0) return BigDecimal.ZERO;
        BigDecimal x2 = x.multiply(x, WK).negate(), t = x, s = x;
        for (int k = 3; k < 4000; k += 2) {
            t = t.multiply(x2, WK);
            BigDecimal d = t.divide(BigDecimal.valueOf(k), WK);
            s = s.add(d, WK);
            if (d.signum() == 0 || d.abs().compareTo(s.abs().movePointLeft(62)) < 0) break;
        }
        return s;
    }
    static BigDecimal machin() {
        BigDecimal a = atanSeries(BigDecimal.ONE.divide(new BigDecimal(5), WK)).multiply(BigDecimal.valueOf(16), WK);
        BigDecimal b = atanSeries(BigDecimal.ONE.divide(new BigDecimal(239), WK)).multiply(BigDecimal.valueOf(4), WK);
        return a.subtract(b, WK);
    }
    static BigDecimal exp(BigDecimal x) {
        if (x.signum() == 0) return BigDecimal.ONE;
        BigInteger k = x.divide(LN2, WK).setScale(0, RoundingMode.HALF_EVEN).toBigInteger();
        int ki = k.intValueExact();
        BigDecimal r = x.subtract(LN2.multiply(new BigDecimal(k), WK), WK);
        int h = 10;
        r = r.divide(BigDecimal.valueOf(1L << h), WK);
        BigDecimal t = BigDecimal.ONE, s = BigDecimal.ONE;
        for (int i = 1; i < 60; i++) {
            t = t.multiply(r, WK).divide(BigDecimal.valueOf(i), WK);
            s = s.add(t, WK);
            if (t.signum() == 0 || t.abs().compareTo(BigDecimal.ONE.movePointLeft(62)) < 0) break;
        }
        for (int i = 0; i < h; i++) s = s.multiply(s, WK);
        BigDecimal p = TWO.pow(Math.abs(ki), WK);
        return ki >= 0 ? s.multiply(p, WK) : s.divide(p, WK);
    }
    static BigDecimal ln(BigDecimal x) {
        // x = m * 2^k with m in [0.7, 1.5)
        double lx = (double) (x.precision() - x.scale()) * 3.321928094887362;
        int k = (int) Math.round(lx);
        BigDecimal m = k >= 0 ? x.divide(BigDecimal.valueOf(2).pow(k, WK), WK) : x.multiply(BigDecimal.valueOf(2).pow(-k, WK), WK);
        while (m.compareTo(new BigDecimal("1.5")) >= 0) { m = m.divide(BigDecimal.valueOf(2), WK); k++; }
        while (m.compareTo(new BigDecimal("0.75")) < 0) { m = m.multiply(BigDecimal.valueOf(2), WK); k--; }
        BigDecimal z = m.subtract(BigDecimal.ONE).divide(m.add(BigDecimal.ONE), WK);
        BigDecimal s = z.signum() == 0 ? BigDecimal.ZERO : atanhSeries(z).multiply(BigDecimal.valueOf(2), WK);
        return s.add(LN2.multiply(BigDecimal.valueOf(k), WK), WK);
    }
    static N lnN(N a) {
        if (a.k == NAN || a.k == NINF) return QNAN;
        if (a.k == PINF) return INF;
        if (a.v.signum() < 0) return QNAN;
        if (a.v.signum() == 0) return MINF;
        return fin(ln(a.v.round(WK)));
    }
    static N expN(N a) {
        if (a.k == NAN) return QNAN;
        if (a.k == PINF) return INF;
        if (a.k == NINF) return ZERO;
        if (a.v.abs().compareTo(BigDecimal.valueOf(1000000)) > 0) return a.v.signum() > 0 ? INF : ZERO;
        return fin(exp(a.v.round(WK)));
    }
    static N powN(N a, N b) {
        if (b.k == FIN && b.v.signum() == 0) return ONE;
        if (a.k == NAN || b.k == NAN) return QNAN;
        if (a.k == FIN && b.k == FIN) {
            BigDecimal bs = b.v.stripTrailingZeros();
            if (bs.scale() <= 0 && bs.abs().compareTo(BigDecimal.valueOf(10000)) <= 0) {
                int e = bs.intValueExact();
                if (e > 0) return fin(a.v.round(WK).pow(e, WK));
                if (a.v.signum() == 0) return INF;
                return fin(BigDecimal.ONE.divide(a.v.round(WK).pow(-e, WK), WK));
            }
            if (a.v.signum() < 0) return QNAN;
            if (a.v.signum() == 0) return b.v.signum() > 0 ? ZERO : INF;
            return expN(fin2(ln(a.v.round(WK)).multiply(b.v.round(WK), WK)));
        }
        N l = lnN(a);
        return expN(mul(l, b));
    }
    static N fin2(BigDecimal b) { return new N(FIN, b); }

    /** reduce to [-pi, pi] */
    static BigDecimal red(BigDecimal x) {
        BigDecimal tp = PI.multiply(TWO, WK);
        BigInteger k = x.divide(tp, WK).setScale(0, RoundingMode.HALF_EVEN).toBigInteger();
        return x.subtract(tp.multiply(new BigDecimal(k), WK), WK);
    }
    static BigDecimal sinSeries(BigDecimal x) {
        if (x.signum() == 0) return BigDecimal.ZERO;
        BigDecimal x2 = x.multiply(x, WK).negate(), t = x, s = x;
        for (int k = 2; k < 200; k += 2) {
            t = t.multiply(x2, WK).divide(BigDecimal.valueOf((long) k * (k + 1)), WK);
            s = s.add(t, WK);
            if (t.signum() == 0 || t.abs().compareTo(BigDecimal.ONE.movePointLeft(120)) < 0
                || t.abs().compareTo(x.abs().movePointLeft(64)) < 0) break;
        }
        return s;
    }
    static BigDecimal cosSeries(BigDecimal x) {
        BigDecimal x2 = x.multiply(x, WK).negate(), t = BigDecimal.ONE, s = BigDecimal.ONE;
        for (int k = 1; k < 200; k += 2) {
            t = t.multiply(x2, WK).divide(BigDecimal.valueOf((long) k * (k + 1)), WK);
            s = s.add(t, WK);
            if (t.signum() == 0 || t.abs().compareTo(BigDecimal.ONE.movePointLeft(64)) < 0) break;
        }
        return s;
    }
    static N sinN(N a) { return a.k != FIN ? QNAN : fin(sinSeries(red(a.v.round(WK)))); }
    static N cosN(N a) { return a.k != FIN ? QNAN : fin(cosSeries(red(a.v.round(WK)))); }
    /** 1 - cos x, without cancellation */
    static N versN(N a) {
        if (a.k != FIN) return QNAN;
        BigDecimal s = sinSeries(red(a.v.divide(TWO, WK)));
        return fin(s.multiply(s, WK).multiply(TWO, WK));
    }
    static BigDecimal atan(BigDecimal x) {
        boolean inv = x.abs().compareTo(BigDecimal.ONE) > 0;
        BigDecimal y = inv ? BigDecimal.ONE.divide(x, WK) : x;
        // argument halving
        int h = 0;
        while (y.abs().compareTo(new BigDecimal("0.05")) > 0) {
            BigDecimal q = BigDecimal.ONE.add(y.multiply(y, WK), WK).sqrt(WK);
            y = y.divide(BigDecimal.ONE.add(q, WK), WK);
            h++;
        }
        BigDecimal r = atanSeries(y).multiply(TWO.pow(h), WK);
        if (inv) {
            BigDecimal hp = PI.divide(TWO, WK);
            r = (x.signum() > 0 ? hp : hp.negate()).subtract(r, WK);
        }
        return r;
    }
    static N atan2N(N y, N x) {
        if (x.k != FIN || y.k != FIN) return QNAN;
        if (x.v.signum() == 0 && y.v.signum() == 0) return ZERO;
        if (x.v.signum() == 0) { BigDecimal hp = PI.divide(TWO, WK); return fin(y.v.signum() > 0 ? hp : hp.negate()); }
        BigDecimal r = atan(y.v.divide(x.v, WK));
        if (x.v.signum() < 0) r = y.v.signum() >= 0 ? r.add(PI, WK) : r.subtract(PI, WK);
        return fin(r);
    }
    static N floorN(N a) { return a.k != FIN ? a : new N(FIN, a.v.setScale(0, RoundingMode.FLOOR)); }

    // ---- operators --------------------------------------------------------------
    static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

    /** Evaluate completely, once (as TLCEval, but deep and with error messages of bounded size). */
    @TLAPlusOperator(identifier = "Ev", module = "Num", warn = false)
    public static Value ev(final Value v) {
        try { return force(v); }
        catch (RuntimeException | StackOverflowError e) {
            String m = String.valueOf(e.getMessage()).replace('%', ' ');
            throw new RuntimeException(m.length() > 300 ? m.substring(m.length() - 300) : m);
        }
    }
    static Value force(Value v) {
        if (v instanceof tlc2.value.impl.FcnLambdaValue) {
            FcnRcdValue r = (FcnRcdValue) ((tlc2.value.impl.FcnLambdaValue) v).toFcnRcd();
            Value t = r.toTuple();
            v = t != null ? t : r;
        }
        if (v instanceof TupleValue) {
            Value[] e = ((TupleValue) v).elems;
            for (int i = 0; i < e.length; i++) e[i] = force(e[i]);
        } else if (v instanceof FcnRcdValue) {
            Value[] e = ((FcnRcdValue) v).values;
            for (int i = 0; i < e.length; i++) e[i] = force(e[i]);
        } else if (v instanceof tlc2.value.impl.RecordValue) {
            Value[] e = ((tlc2.value.impl.RecordValue) v).values;
            for (int i = 0; i < e.length; i++) e[i] = force(e[i]);
        } else if (v instanceof tlc2.value.impl.SetCapValue || v instanceof tlc2.value.impl.SetCupValue
                || v instanceof tlc2.value.impl.SetDiffValue || v instanceof tlc2.value.impl.SetPredValue
                || v instanceof tlc2.value.impl.UnionValue || v instanceof tlc2.value.impl.SetOfTuplesValue) {
            v = v.toSetEnum();
        }
        return v;
    }
    @TLAPlusOperator(identifier = "NCanon", module = "Num", warn = false)
    public static Value NCanon(Value a) { return ret(arg(a)); }
    @TLAPlusOperator(identifier = "NAdd", module = "Num", warn = false)
    public static Value NAdd(Value a, Value c) { return ret(add(arg(a), arg(c))); }
    @TLAPlusOperator(identifier = "NSub", module = "Num", warn = false)
    public static Value NSub(Value a, Value c) { return ret(add(arg(a), neg(arg(c)))); }
    @TLAPlusOperator(identifier = "NMul", module = "Num", warn = false)
    public static Value NMul(Value a, Value c) { return ret(mul(arg(a), arg(c))); }
    @TLAPlusOperator(identifier = "NDiv", module = "Num", warn = false)
    public static Value NDiv(Value a, Value c) { return ret(div(arg(a), arg(c))); }
    @TLAPlusOperator(identifier = "NNeg", module = "Num", warn = false)
    public static Value NNeg(Value a) { return ret(neg(arg(a))); }
    @TLAPlusOperator(identifier = "NAbs", module = "Num", warn = false)
    public static Value NAbs(Value a) { N x = arg(a); return ret(x.k == NAN ? x : sgn(x) < 0 ? neg(x) : x); }
    @TLAPlusOperator(identifier = "NSqrt", module = "Num", warn = false)
    public static Value NSqrt(Value a) { return ret(sqrt(arg(a))); }
    @TLAPlusOperator(identifier = "NLn", module = "Num", warn = false)
    public static Value NLn(Value a) { return ret(lnN(arg(a))); }
    @TLAPlusOperator(identifier = "NLog10", module = "Num", warn = false)
    public static Value NLog10(Value a) { N l = lnN(arg(a)); return ret(l.k == FIN ? fin(l.v.divide(LN10, WK)) : l); }
    @TLAPlusOperator(identifier = "NExp", module = "Num", warn = false)
    public static Value NExp(Value a) { return ret(expN(arg(a))); }
    @TLAPlusOperator(identifier = "NPow", module = "Num", warn = false)
    public static Value NPow(Value a, Value c) { return ret(powN(arg(a), arg(c))); }
    @TLAPlusOperator(identifier = "NSin", module = "Num", warn = false)
    public static Value NSin(Value a) { return ret(sinN(arg(a))); }
    @TLAPlusOperator(identifier = "NCos", module = "Num", warn = false)
    public static Value NCos(Value a) { return ret(cosN(arg(a))); }
    @TLAPlusOperator(identifier = "NVersin", module = "Num", warn = false)
    public static Value NVersin(Value a) { return ret(versN(arg(a))); }
    @TLAPlusOperator(identifier = "NAtan2", module = "Num", warn = false)
    public static Value NAtan2(Value y, Value x) { return ret(atan2N(arg(y), arg(x))); }
    @TLAPlusOperator(identifier = "NFloor", module = "Num", warn = false)
    public static Value NFloor(Value a) { return ret(floorN(arg(a))); }
    @TLAPlusOperator(identifier = "NToInt", module = "Num", warn = false)
    public static Value NToInt(Value a) {
        N x = arg(a);
        if (x.k != FIN) throw new RuntimeException("NToInt of " + a);
        return IntValue.gen(x.v.setScale(0, RoundingMode.HALF_EVEN).intValueExact());
    }
    @TLAPlusOperator(identifier = "NIsInt", module = "Num", warn = false)
    public static Value NIsInt(Value a) {
        N x = arg(a);
        return b(x.k == FIN && (x.v.signum() == 0 || x.v.stripTrailingZeros().scale() <= 0));
    }
    @TLAPlusOperator(identifier = "NLt", module = "Num", warn = false)
    public static Value NLt(Value a, Value c) { int r = cmp(arg(a), arg(c)); return b(r != 99 && r < 0); }
    @TLAPlusOperator(identifier = "NLe", module = "Num", warn = false)
    public static Value NLe(Value a, Value c) { int r = cmp(arg(a), arg(c)); return b(r != 99 && r <= 0); }
    @TLAPlusOperator(identifier = "NEq", module = "Num", warn = false)
    public static Value NEq(Value a, Value c) { int r = cmp(arg(a), arg(c)); return b(r == 0); }
    @TLAPlusOperator(identifier = "NSame", module = "Num", warn = false)
    public static Value NSame(Value a, Value c) {
        N x = arg(a), y = arg(c);
        return b((x.k == NAN && y.k == NAN) || cmp(x, y) == 0);
    }
    @TLAPlusOperator(identifier = "NIsNan", module = "Num", warn = false)
    public static Value NIsNan(Value a) { return b(arg(a).k == NAN); }
    @TLAPlusOperator(identifier = "NIsFinite", module = "Num", warn = false)
    public static Value NIsFinite(Value a) { return b(arg(a).k == FIN); }
    @TLAPlusOperator(identifier = "NClose", module = "Num", warn = false)
    public static Value NClose(Value a, Value c, Value rt, Value at) {
        N x = arg(a), y = arg(c);
        if (x.k != FIN || y.k != FIN) return b(x.k == y.k);
        BigDecimal m = x.v.abs().max(y.v.abs());
        BigDecimal tol = arg(at).v.add(arg(rt).v.multiply(m, WK));
        return b(x.v.subtract(y.v).abs().compareTo(tol) <= 0);
    }
    static Value[] seq(Value s) {
        Value t = (Value) s.toTuple();
        if (t == null) throw new RuntimeException("not a sequence: " + s);
        return ((TupleValue) t).elems;
    }
    @TLAPlusOperator(identifier = "NSum", module = "Num", warn = false)
    public static Value NSum(Value s) {
        N r = ZERO;
        for (Value v : seq(s)) r = add(r, arg(v));
        return ret(r);
    }
    @TLAPlusOperator(identifier = "NDot", module = "Num", warn = false)
    public static Value NDot(Value s, Value t) {
        Value[] x = seq(s), y = seq(t);
        if (x.length != y.length) throw new RuntimeException("NDot: different lengths");
        N r = ZERO;
        for (int i = 0; i < x.length; i++) r = add(r, mul(arg(x[i]), arg(y[i])));
        return ret(r);
    }
    /** ascending, nan last */
    @TLAPlusOperator(identifier = "NSort", module = "Num", warn = false)
    public static Value NSort(Value s) {
        Value[] x = seq(s).clone();
        Arrays.sort(x, (p, q) -> {
            N a = arg(p), c = arg(q);
            if (a.k == NAN || c.k == NAN) return Boolean.compare(a.k == NAN, c.k == NAN);
            return cmp(a, c);
        });
        return new TupleValue(x);
    }
    @TLAPlusOperator(identifier = "NPi", module = "Num", warn = false)
    public static Value NPi() { return ret(fin(PI)); }
}
