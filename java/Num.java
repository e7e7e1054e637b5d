import tlc2.value.impl.*;
import util.UniqueString;
import java.util.*;

/** Java module override of module Num: the arithmetic of the reals, in IEEE double.
 *  Nothing about the library under test is decided here. */
public final class Num {
    static double d(Value v) { return NumValue.of(v); }
    static Value n(double x) { return new NumValue(x); }
    static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

    public static Value R(Value a) { return n(d(a)); }
    public static Value RAdd(Value a, Value b) { return n(d(a) + d(b)); }
    public static Value RSub(Value a, Value b) { return n(d(a) - d(b)); }
    public static Value RMul(Value a, Value b) { return n(d(a) * d(b)); }
    public static Value RDiv(Value a, Value b) { return n(d(a) / d(b)); }
    public static Value RNeg(Value a) { return n(-d(a)); }
    public static Value RAbs(Value a) { return n(Math.abs(d(a))); }
    public static Value RSqrt(Value a) { double x = d(a); return n(x <= 0 ? 0.0 : Math.sqrt(x)); }
    public static Value RExp(Value a) { return n(Math.exp(d(a))); }
    public static Value RLog(Value a) { return n(Math.log(d(a))); }
    public static Value RLog1p(Value a) { return n(Math.log1p(d(a))); }
    public static Value RMax(Value a, Value b) { return n(Math.max(d(a), d(b))); }
    public static Value RMin(Value a, Value b) { return n(Math.min(d(a), d(b))); }
    public static Value RLe(Value a, Value b) { return b(d(a) <= d(b)); }
    public static Value RLt(Value a, Value b) { return b(d(a) < d(b)); }
    public static Value REq(Value a, Value b) { return b(d(a) == d(b)); }
    public static Value RFinite(Value a) { double x = d(a); return b(!Double.isNaN(x) && !Double.isInfinite(x)); }
    /** |a - b| <= tol * (1 + max(|a|,|b|)); infinities only match themselves. */
    public static Value RClose(Value a, Value b, Value t) {
        double x = d(a), y = d(b);
        if (Double.isNaN(x) || Double.isNaN(y)) return b(false);
        if (Double.isInfinite(x) || Double.isInfinite(y)) return b(x == y);
        return b(Math.abs(x - y) <= d(t) * (1 + Math.max(Math.abs(x), Math.abs(y))));
    }

    static Value[] el(Value v) {
        if (v instanceof TupleValue) return ((TupleValue) v).elems;
        Value t = v.toTuple();
        if (t == null) throw new RuntimeException("not a sequence: " + v);
        return ((TupleValue) t).elems;
    }
    static double[] vec(Value v) { Value[] e = el(v); double[] r = new double[e.length]; for (int i = 0; i < r.length; i++) r[i] = d(e[i]); return r; }
    static Value vec(double[] r) { Value[] e = new Value[r.length]; for (int i = 0; i < r.length; i++) e[i] = n(r[i]); return new TupleValue(e); }

    /** Strict evaluation of a sequence-valued expression (identity in the logic). */
    public static Value Force(Value v) { return new TupleValue(el(v)); }

    static void same(double[] a, double[] b) { if (a.length != b.length) throw new RuntimeException("length mismatch " + a.length + " vs " + b.length); }
    public static Value VAdd(Value x, Value y) { double[] a = vec(x), c = vec(y); same(a, c); double[] r = new double[a.length]; for (int i = 0; i < r.length; i++) r[i] = a[i] + c[i]; return vec(r); }
    public static Value VSub(Value x, Value y) { double[] a = vec(x), c = vec(y); same(a, c); double[] r = new double[a.length]; for (int i = 0; i < r.length; i++) r[i] = a[i] - c[i]; return vec(r); }
    public static Value VScale(Value s, Value y) { double a = d(s); double[] c = vec(y); double[] r = new double[c.length]; for (int i = 0; i < r.length; i++) r[i] = a * c[i]; return vec(r); }
    public static Value VMul(Value x, Value y) { double[] a = vec(x), c = vec(y); same(a, c); double[] r = new double[a.length]; for (int i = 0; i < r.length; i++) r[i] = a[i] * c[i]; return vec(r); }
    public static Value VDot(Value x, Value y) { double[] a = vec(x), c = vec(y); same(a, c); double s = 0; for (int i = 0; i < a.length; i++) s += a[i] * c[i]; return n(s); }
    public static Value VSum(Value x) { double s = 0; for (double q : vec(x)) s += q; return n(s); }
    public static Value VMaxAbs(Value x) { double s = 0; for (double q : vec(x)) s = Double.isNaN(q) ? Double.POSITIVE_INFINITY : Math.max(s, Math.abs(q)); return n(s); }
    public static Value MatVec(Value m, Value x) {
        Value[] rows = el(m); double[] v = vec(x); double[] r = new double[rows.length];
        for (int i = 0; i < r.length; i++) { double[] a = vec(rows[i]); same(a, v); double s = 0; for (int j = 0; j < v.length; j++) s += a[j] * v[j]; r[i] = s; }
        return vec(r);
    }
    public static Value MatTVec(Value m, Value x) {
        Value[] rows = el(m); double[] v = vec(x); double[] r = null;
        if (rows.length != v.length) throw new RuntimeException("length mismatch in MatTVec");
        for (int i = 0; i < rows.length; i++) { double[] a = vec(rows[i]); if (r == null) r = new double[a.length]; for (int j = 0; j < a.length; j++) r[j] += a[j] * v[i]; }
        return vec(r);
    }
    public static Value VClose(Value x, Value y, Value t) {
        double[] a = vec(x), c = vec(y); if (a.length != c.length) return b(false);
        double sc = 1, tol = d(t);
        for (int i = 0; i < a.length; i++) { if (Double.isNaN(a[i]) || Double.isNaN(c[i])) return b(false); if (!Double.isInfinite(a[i])) sc = Math.max(sc, Math.abs(a[i])); if (!Double.isInfinite(c[i])) sc = Math.max(sc, Math.abs(c[i])); }
        for (int i = 0; i < a.length; i++) { if (a[i] == c[i]) continue; if (!(Math.abs(a[i] - c[i]) <= tol * sc)) return b(false); }
        return b(true);
    }
    public static Value VFinite(Value x) { for (double q : vec(x)) if (Double.isNaN(q) || Double.isInfinite(q)) return b(false); return b(true); }
    /** sorted ascending */
    public static Value VSort(Value x) { double[] a = vec(x); Arrays.sort(a); return vec(a); }
    /** solution of a square linear system by Gaussian elimination with partial pivoting */
    public static Value LinSolve(Value m, Value bb) {
        Value[] rows = el(m); int k = rows.length; double[][] a = new double[k][]; double[] c = vec(bb);
        for (int i = 0; i < k; i++) { a[i] = vec(rows[i]); if (a[i].length != k) throw new RuntimeException("LinSolve: not square"); }
        for (int p = 0; p < k; p++) {
            int q = p; for (int i = p + 1; i < k; i++) if (Math.abs(a[i][p]) > Math.abs(a[q][p])) q = i;
            double[] t = a[p]; a[p] = a[q]; a[q] = t; double tc = c[p]; c[p] = c[q]; c[q] = tc;
            for (int i = p + 1; i < k; i++) { double f = a[i][p] / a[p][p]; if (f == 0) continue; for (int j = p; j < k; j++) a[i][j] -= f * a[p][j]; c[i] -= f * c[p]; }
        }
        for (int p = k - 1; p >= 0; p--) { double s = c[p]; for (int j = p + 1; j < k; j++) s -= a[p][j] * c[j]; c[p] = s / a[p][p]; }
        return vec(c);
    }
    /** eigen-decomposition of a symmetric matrix (cyclic Jacobi): <<eigenvalues, rows = eigenvectors>> , descending */
    public static Value SymEig(Value m) {
        Value[] rows = el(m); int k = rows.length; double[][] a = new double[k][]; double[][] v = new double[k][k];
        for (int i = 0; i < k; i++) { a[i] = vec(rows[i]); v[i][i] = 1; }
        for (int sweep = 0; sweep < 60; sweep++) {
            double off = 0, dg = 0; for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) if (i != j) off += a[i][j] * a[i][j]; else dg += a[i][i] * a[i][i];
            if (off <= 1e-32 * dg || off == 0) break;
            for (int p = 0; p < k; p++) for (int q = p + 1; q < k; q++) {
                if (a[p][q] == 0) continue;
                double th = (a[q][q] - a[p][p]) / (2 * a[p][q]);
                double t = (th >= 0 ? 1 : -1) / (Math.abs(th) + Math.sqrt(th * th + 1));
                double cs = 1 / Math.sqrt(t * t + 1), sn = t * cs;
                for (int i = 0; i < k; i++) { double x = a[i][p], y = a[i][q]; a[i][p] = cs * x - sn * y; a[i][q] = sn * x + cs * y; }
                for (int i = 0; i < k; i++) { double x = a[p][i], y = a[q][i]; a[p][i] = cs * x - sn * y; a[q][i] = sn * x + cs * y; }
                for (int i = 0; i < k; i++) { double x = v[p][i], y = v[q][i]; v[p][i] = cs * x - sn * y; v[q][i] = sn * x + cs * y; }
            }
        }
        Integer[] ix = new Integer[k]; for (int i = 0; i < k; i++) ix[i] = i;
        final double[][] fa = a; Arrays.sort(ix, (x, y) -> Double.compare(fa[y][y], fa[x][x]));
        Value[] ev = new Value[k], vv = new Value[k];
        for (int i = 0; i < k; i++) { ev[i] = n(a[ix[i]][ix[i]]); vv[i] = vec(v[ix[i]]); }
        return new TupleValue(new Value[]{new TupleValue(ev), new TupleValue(vv)});
    }

    /** thin singular value decomposition by one-sided Jacobi: <<S (descending), U^T rows, V^T rows>> with k = min(m,n) triplets */
    public static Value SVD(Value mm) {
        Value[] rows = el(mm); int m = rows.length; double[][] a = new double[m][]; for (int i = 0; i < m; i++) a[i] = vec(rows[i]);
        int c = a[0].length; boolean tr = m < c;
        int p = tr ? c : m, q = tr ? m : c;            // work on p x q, p >= q
        double[][] w = new double[q][p], v = new double[q][q];
        for (int j = 0; j < q; j++) { v[j][j] = 1; for (int i = 0; i < p; i++) w[j][i] = tr ? a[j][i] : a[i][j]; }
        for (int sweep = 0; sweep < 80; sweep++) {
            boolean done = true;
            for (int j = 0; j < q; j++) for (int k = j + 1; k < q; k++) {
                double al = 0, be = 0, ga = 0; for (int i = 0; i < p; i++) { al += w[j][i] * w[j][i]; be += w[k][i] * w[k][i]; ga += w[j][i] * w[k][i]; }
                if (Math.abs(ga) <= 1e-16 * Math.sqrt(al * be) || ga == 0) continue;
                done = false;
                double ze = (be - al) / (2 * ga), t = (ze >= 0 ? 1 : -1) / (Math.abs(ze) + Math.sqrt(1 + ze * ze)), cs = 1 / Math.sqrt(1 + t * t), sn = cs * t;
                for (int i = 0; i < p; i++) { double x = w[j][i]; w[j][i] = cs * x - sn * w[k][i]; w[k][i] = sn * x + cs * w[k][i]; }
                for (int i = 0; i < q; i++) { double x = v[j][i]; v[j][i] = cs * x - sn * v[k][i]; v[k][i] = sn * x + cs * v[k][i]; }
            }
            if (done) break;
        }
        double[] s = new double[q]; Integer[] ix = new Integer[q];
        for (int j = 0; j < q; j++) { ix[j] = j; double t = 0; for (int i = 0; i < p; i++) t += w[j][i] * w[j][i]; s[j] = Math.sqrt(t); if (s[j] > 0) for (int i = 0; i < p; i++) w[j][i] /= s[j]; }
        Arrays.sort(ix, (x, y) -> Double.compare(s[y], s[x]));
        Value[] S = new Value[q], U = new Value[q], V = new Value[q];
        for (int j = 0; j < q; j++) { S[j] = n(s[ix[j]]); U[j] = vec(tr ? v[ix[j]] : w[ix[j]]); V[j] = vec(tr ? w[ix[j]] : v[ix[j]]); }
        return new TupleValue(new Value[]{new TupleValue(S), new TupleValue(U), new TupleValue(V)});
    }
}
