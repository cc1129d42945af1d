package mpsv;

import java.io.IOException;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.IValue;
import tlc2.value.impl.*;
import util.Assert;
import util.UniqueString;

/** TLC's interpretation of module Real64 (spec/Real64.tla): each operator is the IEEE double operation. */
public final class Real64 {
    static double d(Value v) {
        if (v instanceof RealValue) return ((RealValue) v).d;
        if (v instanceof IntValue) return ((IntValue) v).val;
        Assert.fail("a real number was expected here, not " + v);
        return 0;
    }
    static RealValue r(double x) { return new RealValue(x); }
    static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

    @TLAPlusOperator(identifier = "R", module = "Real64", warn = false)
    public static Value R(StringValue s) { return r(parse(s.val.toString())); }

    static double parse(String t) {
        if (t.equals("nan") || t.equals("-nan")) return Double.NaN;
        if (t.equals("inf")) return Double.POSITIVE_INFINITY;
        if (t.equals("-inf")) return Double.NEGATIVE_INFINITY;
        return Double.parseDouble(t);
    }

    @TLAPlusOperator(identifier = "RI", module = "Real64", warn = false)
    public static Value RI(IntValue i) { return r(i.val); }

    @TLAPlusOperator(identifier = "RQ", module = "Real64", warn = false)
    public static Value RQ(IntValue p, IntValue q) { return r((double) p.val / q.val); }

    @TLAPlusOperator(identifier = "\\oplus", module = "Real64", warn = false)
    public static Value add(Value a, Value c) { return r(d(a) + d(c)); }

    @TLAPlusOperator(identifier = "\\ominus", module = "Real64", warn = false)
    public static Value sub(Value a, Value c) { return r(d(a) - d(c)); }

    @TLAPlusOperator(identifier = "\\odot", module = "Real64", warn = false)
    public static Value mul(Value a, Value c) { return r(d(a) * d(c)); }

    @TLAPlusOperator(identifier = "\\oslash", module = "Real64", warn = false)
    public static Value div(Value a, Value c) { return r(d(a) / d(c)); }

    @TLAPlusOperator(identifier = "\\prec", module = "Real64", warn = false)
    public static Value lt(Value a, Value c) { return b(d(a) < d(c)); }

    @TLAPlusOperator(identifier = "\\preceq", module = "Real64", warn = false)
    public static Value le(Value a, Value c) { return b(d(a) <= d(c)); }

    @TLAPlusOperator(identifier = "RSqrt", module = "Real64", warn = false)
    public static Value sqrt(Value a) { return r(Math.sqrt(d(a))); }
    @TLAPlusOperator(identifier = "RSin", module = "Real64", warn = false)
    public static Value sin(Value a) { return r(Math.sin(d(a))); }
    @TLAPlusOperator(identifier = "RCos", module = "Real64", warn = false)
    public static Value cos(Value a) { return r(Math.cos(d(a))); }
    @TLAPlusOperator(identifier = "RAbs", module = "Real64", warn = false)
    public static Value abs(Value a) { return r(Math.abs(d(a))); }
    @TLAPlusOperator(identifier = "RMin", module = "Real64", warn = false)
    public static Value min(Value a, Value c) { return r(Math.min(d(a), d(c))); }
    @TLAPlusOperator(identifier = "RMax", module = "Real64", warn = false)
    public static Value max(Value a, Value c) { return r(Math.max(d(a), d(c))); }
    @TLAPlusOperator(identifier = "RFinite", module = "Real64", warn = false)
    public static Value finite(Value a) { return b(!Double.isNaN(d(a)) && !Double.isInfinite(d(a))); }
    @TLAPlusOperator(identifier = "RFloor", module = "Real64", warn = false)
    public static Value floor(Value a) { return IntValue.gen((int) Math.floor(d(a))); }

    /** Sum of a sequence of reals. */
    @TLAPlusOperator(identifier = "RSum", module = "Real64", warn = false)
    public static Value sum(Value s) {
        TupleValue t = tup(s);
        double x = 0;
        for (Value e : t.elems) x += d(e);
        return r(x);
    }

    /** The least and the greatest of x and the elements of s. */
    @TLAPlusOperator(identifier = "MinOf", module = "Real64", warn = false)
    public static Value minOf(Value x, Value s) {
        double m = d(x);
        for (Value e : tup(s).elems) m = Math.min(m, d(e));
        return r(m);
    }
    @TLAPlusOperator(identifier = "MaxOf", module = "Real64", warn = false)
    public static Value maxOf(Value x, Value s) {
        double m = d(x);
        for (Value e : tup(s).elems) m = Math.max(m, d(e));
        return r(m);
    }

    static TupleValue tup(Value v) {
        Value t = v.toTuple();
        if (t == null) Assert.fail("a sequence was expected here, not " + v);
        return (TupleValue) t;
    }

    // ---- 3-vectors -------------------------------------------------------------------------
    static double[] v3(Value v) {
        TupleValue t = tup(v);
        return new double[] {d(t.elems[0]), d(t.elems[1]), d(t.elems[2])};
    }
    static Value v3(double x, double y, double z) { return new TupleValue(new Value[] {r(x), r(y), r(z)}); }

    @TLAPlusOperator(identifier = "VAdd", module = "Real64", warn = false)
    public static Value vadd(Value a, Value c) {
        double[] x = v3(a), y = v3(c);
        return v3(x[0] + y[0], x[1] + y[1], x[2] + y[2]);
    }
    @TLAPlusOperator(identifier = "VSub", module = "Real64", warn = false)
    public static Value vsub(Value a, Value c) {
        double[] x = v3(a), y = v3(c);
        return v3(x[0] - y[0], x[1] - y[1], x[2] - y[2]);
    }
    @TLAPlusOperator(identifier = "VScale", module = "Real64", warn = false)
    public static Value vscale(Value k, Value a) {
        double[] x = v3(a);
        double s = d(k);
        return v3(s * x[0], s * x[1], s * x[2]);
    }
    @TLAPlusOperator(identifier = "VDot", module = "Real64", warn = false)
    public static Value vdot(Value a, Value c) {
        double[] x = v3(a), y = v3(c);
        return r(x[0] * y[0] + x[1] * y[1] + x[2] * y[2]);
    }
    @TLAPlusOperator(identifier = "VNorm", module = "Real64", warn = false)
    public static Value vnorm(Value a) {
        double[] x = v3(a);
        return r(Math.sqrt(x[0] * x[0] + x[1] * x[1] + x[2] * x[2]));
    }
    @TLAPlusOperator(identifier = "VSum", module = "Real64", warn = false)
    public static Value vsum(Value s) {
        double a = 0, b = 0, c = 0;
        for (Value e : tup(s).elems) {
            double[] x = v3(e);
            a += x[0]; b += x[1]; c += x[2];
        }
        return v3(a, b, c);
    }

    /** The solution x of A x = rhs (Gaussian elimination, partial pivoting); <<>> when A is singular. */
    @TLAPlusOperator(identifier = "LinSolve", module = "Real64", warn = false)
    public static Value solve(Value am, Value rhs) {
        TupleValue rows = tup(am), bv = tup(rhs);
        int n = rows.elems.length;
        double[][] a = new double[n][n + 1];
        for (int i = 0; i < n; i++) {
            TupleValue row = tup(rows.elems[i]);
            for (int j = 0; j < n; j++) a[i][j] = d(row.elems[j]);
            a[i][n] = d(bv.elems[i]);
        }
        return gauss(a, n);
    }

    private static Value gauss(double[][] a, int n) {
        for (int k = 0; k < n; k++) {
            int p = k;
            for (int i = k + 1; i < n; i++) if (Math.abs(a[i][k]) > Math.abs(a[p][k])) p = i;
            if (!(Math.abs(a[p][k]) > 0)) return new TupleValue(new Value[0]);
            double[] t = a[p]; a[p] = a[k]; a[k] = t;
            for (int i = k + 1; i < n; i++) {
                double f = a[i][k] / a[k][k];
                if (f == 0) continue;
                for (int j = k; j <= n; j++) a[i][j] -= f * a[k][j];
            }
        }
        Value[] x = new Value[n];
        double[] xs = new double[n];
        for (int i = n - 1; i >= 0; i--) {
            double s = a[i][n];
            for (int j = i + 1; j < n; j++) s -= a[i][j] * xs[j];
            xs[i] = s / a[i][i];
            x[i] = r(xs[i]);
        }
        return new TupleValue(x);
    }


    /** A x = rhs with A given sparsely: row i is a sequence of <<j, a>>, entries for the same j add up. */
    @TLAPlusOperator(identifier = "SpSolve", module = "Real64", warn = false)
    public static Value spsolve(Value rowsv, Value rhs) {
        TupleValue rows = tup(rowsv), bv = tup(rhs);
        int n = rows.elems.length;
        double[][] a = new double[n][n + 1];
        for (int i = 0; i < n; i++) {
            for (Value e : tup(rows.elems[i]).elems) {
                TupleValue t = tup(e);
                a[i][((IntValue) t.elems[0]).val - 1] += d(t.elems[1]);
            }
            a[i][n] = d(bv.elems[i]);
        }
        return gauss(a, n);
    }

    /** For each i with live[i] the sequence of all <<j, |x_j - x_i|>> with live[j], j # i and |x_j - x_i| < r. */
    @TLAPlusOperator(identifier = "NearPairs", module = "Real64", warn = false)
    public static Value near(Value xs, Value live, Value rv) {
        TupleValue xt = tup(xs), lt = tup(live);
        int n = xt.elems.length;
        double r = d(rv);
        double[][] x = new double[n][];
        boolean[] l = new boolean[n];
        for (int i = 0; i < n; i++) {
            x[i] = v3(xt.elems[i]);
            l[i] = ((BoolValue) lt.elems[i]).val;
        }
        Value[] out = new Value[n];
        for (int i = 0; i < n; i++) {
            java.util.ArrayList<Value> nb = new java.util.ArrayList<>();
            if (l[i]) for (int j = 0; j < n; j++) {
                if (j == i || !l[j]) continue;
                double a = x[j][0] - x[i][0], b = x[j][1] - x[i][1], c = x[j][2] - x[i][2];
                double s = Math.sqrt(a * a + b * b + c * c);
                if (s < r) nb.add(new TupleValue(new Value[] {IntValue.gen(j + 1), r(s)}));
            }
            out[i] = new TupleValue(nb.toArray(new Value[0]));
        }
        return new TupleValue(out);
    }

    // ---- traces ----------------------------------------------------------------------------
    /** The ndjson file as a sequence; every string "#..." in it becomes the real number it spells. */
    @TLAPlusOperator(identifier = "ReadTrace", module = "Real64", warn = false)
    public static Value read(StringValue path) throws IOException {
        return conv((Value) tlc2.overrides.Json.ndDeserialize(path));
    }

    static Value conv(Value v) {
        if (v instanceof StringValue) {
            String s = ((StringValue) v).val.toString();
            return s.startsWith("#") ? r(parse(s.substring(1))) : v;
        }
        if (v instanceof TupleValue) {
            Value[] e = ((TupleValue) v).elems;
            Value[] o = new Value[e.length];
            for (int i = 0; i < e.length; i++) o[i] = conv(e[i]);
            return new TupleValue(o);
        }
        if (v instanceof RecordValue) {
            RecordValue x = (RecordValue) v;
            Value[] o = new Value[x.values.length];
            for (int i = 0; i < o.length; i++) o[i] = conv(x.values[i]);
            UniqueString[] nm = x.names.clone();
            RecordValue res = new RecordValue(nm, o, false);
            res.normalize();
            return res;
        }
        if (v instanceof FcnRcdValue) {
            Value t = v.toTuple();
            if (t != null && t != v) return conv(t);
        }
        return v;
    }
}
