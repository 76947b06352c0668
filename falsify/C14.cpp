#include "common.hpp"

template <typename T> struct Win          // a view inside a guarded buffer
{
    std::vector<T> buf; int off, n;
    Win(int n_) : off(irand(0, 3)), n(n_)
    {
        buf.resize(off + n + irand(0, 3));
        for (auto& x : buf) x = (T)irand(-1000, 1000);
        auto v = vals(n);
        for (int i = 0; i < n; ++i) buf[off + i] = std::is_same<T, int>::value ? (T)irand(-9, 9) : (T)v[i];
    }
    VectorView<T> view() { return VectorView<T>(buf.data() + off, n); }
    T& operator[](int i) { return buf[off + i]; }
};
template <typename T> std::vector<double> dbl(const std::vector<T>& v) { return std::vector<double>(v.begin(), v.end()); }
template <typename T> std::vector<double> contents(const Vector<T>& v)
{
    if (v.size() != (int)v.data().size()) fail("view length differs from storage length");
    if (v.size() && v.begin() != v.data().data()) fail("view does not address its own storage");
    std::vector<double> r;
    for (int i = 0; i < v.size(); ++i) r.push_back(v[i]);
    return r;
}
static void near(double a, double b, const std::string& w) { if (!(std::fabs(a - b) <= 1e-11 * (1 + std::fabs(b)))) fail(w + " = " + num(a) + " expected " + num(b)); }

template <typename T> static void inplace()
{
    int n = size_pick();
    Win<T> x(n), y(n);
    bool al = coin(1, 4);
    T a = std::is_same<T, int>::value ? (T)irand(-5, 5) : (T)val();
    T d = std::is_same<T, int>::value ? (T)(coin(1, 2) ? 2 : -3) : (T)pow2();
    auto ref = x;
    int k = irand(0, std::is_same<T, double>::value ? 17 : 9);
    if (k == 3) for (int i = 0; i < n; ++i) { double p = pow2(); y[i] = (T)p; if (al && x[i] == 0) x[i] = 1; }
    ref = x;
    static const char* nm[] = {"+= view", "-= view", "*= view", "/= view", "+= value", "-= value", "*= value", "/= value", "= value", "= view",
                               "Add(alpha,view)", "Add(view)", "Sub(alpha,view)", "Sub(view)", "Set(alpha,view)", "Set(view)", "= const view", "= moved view"};
    if (std::is_same<T, int>::value && (k == 3 || k == 7)) return;
    begin(nm[k], "x=" + str(x.buf) + " off=" + str(x.off) + " n=" + str(n) + " y=" + str(y.buf) + " alias=" + str((int)al) + " a=" + num(a) + " d=" + num(d), n > 0);
    auto yv = [&](int i) { return al ? ref[i] : y[i]; };
    Win<T> want = ref;
    for (int i = 0; i < n; ++i)
    {
        T X = ref[i], Y = yv(i);
        T r[] = {X + Y, X - Y, X * Y, (T)(k == 3 ? X / Y : X), X + a, X - a, X * a, (T)(k == 7 ? X / d : X), a, Y, (T)(X + a * Y), X + Y, (T)(X - a * Y), X - Y, (T)(a * Y), Y, Y, Y};
        want[i] = r[k];
    }
    auto y0 = y;
    VectorView<T> V = x.view(), W = al ? x.view() : y.view();
    const VectorView<T>& CW = W;
    switch (k)
    {
        case 0: V += CW; break; case 1: V -= CW; break; case 2: V *= CW; break; 
        case 4: V += a; break; case 5: V -= a; break; case 6: V *= a; break;
        case 8: V = a; break; case 9: V = W; break;
        case 3: V /= CW; break; case 7: V /= d; break;
        case 10: V.Add(a, CW); break; case 11: V.Add(CW); break; case 12: V.Sub(a, CW); break; case 13: V.Sub(CW); break; case 14: V.Set(a, CW); break; case 15: V.Set(CW); break;
        case 16: V = CW; break; case 17: V = std::move(W); break;
    }
    eqv(dbl(x.buf), dbl(want.buf), "target buffer (with guards)");
    if (!al) eqv(dbl(y.buf), dbl(y0.buf), "operand");
}
template <typename T> static void reads()
{
    int n = size_pick() + 1;
    Win<T> x(n), y(n);
    begin("Sum", "x=" + str(x.buf) + " off=" + str(x.off) + " n=" + str(n) + " y=" + str(y.buf) + " yoff=" + str(y.off));
    auto x0 = x.buf, y0 = y.buf;
    const VectorView<T> X = x.view(), Y = y.view();
    double s = 0, d = 0, mx = x[0], mn = x[0], amx = 0, amn = 1e300, xx = 0;
    for (int i = 0; i < n; ++i)
    {
        double v = x[i]; s += v; d += v * y[i]; xx += v * v; mx = std::max(mx, v); mn = std::min(mn, v); amx = std::max(amx, std::fabs(v)); amn = std::min(amn, std::fabs(v));
    }
    near(X.Sum(), s, "Sum member"); near(Sum(X), s, "Sum");
    op("Mean"); near(Mean(X), s / n, "Mean");
    op("Max"); check(Max(X) == mx, "Max " + num(Max(X)) + " expected " + num(mx));
    op("Min"); check(Min(X) == mn, "Min " + num(Min(X)) + " expected " + num(mn));
    op("AbsMax"); check(AbsMax(X) == amx, "AbsMax " + num(AbsMax(X)) + " expected " + num(amx));
    op("AbsMin"); check(AbsMin(X) == amn, "AbsMin " + num(AbsMin(X)) + " expected " + num(amn));
    op("Mult"); near(X.Mult(Y), d, "Mult"); near(InnerProduct(X, Y), d, "InnerProduct"); near(X * Y, d, "operator*");
    op("L2Norm"); near(X.L2Norm(), std::sqrt(xx), "L2Norm member"); near(L2Norm(X), std::sqrt(xx), "L2Norm");
    op("operator==");
    check(X == X, "x == x is false");
    bool e = true;
    for (int i = 0; i < n; ++i) e = e && !(std::fabs((double)x[i] - (double)y[i]) > 1e-12);
    check((X == Y) == e, "x == y");
    Win<T> z(n);
    for (int i = 0; i < n; ++i) z[i] = x[i];
    check(z.view() == X, "equal copies compare unequal");
    int p = irand(0, n - 1);
    z[p] += 1; check(!(z.view() == X), "differs at " + str(p) + " but compares equal");
    z[p] -= 2; check(!(z.view() == X), "differs at " + str(p) + " but compares equal");
    { Win<T> w(n + 1); for (int i = 0; i < n; ++i) w[i] = x[i]; check(!(w.view() == X) && !(X == w.view()), "different lengths compare equal"); }
    std::vector<int> idx;
    int m = size_pick();
    for (int i = 0; i < m; ++i) idx.push_back(irand(0, n - 1));
    also(" idx=" + str(idx));
    std::vector<double> want; for (int i : idx) want.push_back(x[i]);
    op("GetSubVector"); eqv(contents(X.GetSubVector(idx)), want, "subvector");
    Vector<T> o(irand(0, 9)); X.GetSubVector(idx, o); eqv(contents(o), want, "subvector (out)");
    eqv(dbl(x.buf), dbl(x0), "x"); eqv(dbl(y.buf), dbl(y0), "y");
}
static void more()
{
    int n = size_pick();
    Win<double> x(n), y(n), z(n);
    double a = val(), b = val(), g = coin(1, 3) ? 0.0 : val();
    begin("Add(a,x,b,y,c,z)", "x=" + str(x.buf) + " y=" + str(y.buf) + " z=" + str(z.buf) + " off=" + str(x.off) + "," + str(y.off) + "," + str(z.off) + " n=" + str(n) + " a,b,c=" + num(a) + "," + num(b) + "," + num(g), n > 0);
    int al = irand(0, 2);
    auto t = z;
    VectorView<double> T = t.view(), X = al == 1 ? t.view() : x.view(), Y = al == 2 ? t.view() : y.view();
    auto want = z;
    auto xa = [&](int i) { return al == 1 ? z[i] : x[i]; };
    auto ya = [&](int i) { return al == 2 ? z[i] : y[i]; };
    for (int i = 0; i < n; ++i) want[i] = a * xa(i) + b * ya(i) + g * z[i];
    Add(a, X, b, Y, g, T); eqv(t.buf, want.buf, "z");
    op("Add(x,y,z)"); t.buf = z.buf; for (int i = 0; i < n; ++i) want[i] = xa(i) + ya(i);
    Add(X, Y, T); eqv(t.buf, want.buf, "z");
    op("Sub(x,y,z)"); t.buf = z.buf; for (int i = 0; i < n; ++i) want[i] = xa(i) - ya(i);
    Sub(X, Y, T); eqv(t.buf, want.buf, "z");
    if (n > 0)
    {
        op("SubAvg");
        auto q = x; double s = 0; for (int i = 0; i < n; ++i) s += q[i];
        SubAvg(q.view());
        for (int i = 0; i < n; ++i) near(q[i], x[i] - s / n, "SubAvg");
        for (int i = 0; i < n; ++i) q[i] = x[i];
        eqv(q.buf, x.buf, "outside the view");
        op("Normalize");
        double nn = 0; for (int i = 0; i < n; ++i) nn += x[i] * x[i];
        if (nn > 0)
        {
            if (coin(1, 2)) Normalize(q.view()); else { auto v = q.view(); v.Normalize(); }
            for (int i = 0; i < n; ++i) near(q[i], x[i] / std::sqrt(nn), "Normalize");
        }
    }
    // vectors
    Vector<double> V = vect(std::vector<double>(x.buf.data() + x.off, x.buf.data() + x.off + n)), W = vect(std::vector<double>(y.buf.data() + y.off, y.buf.data() + y.off + n));
    double d = pow2();
    std::vector<double> pl, mi, ti, ov, lo;
    Vector<double> P(n);
    for (int i = 0; i < n; ++i) { P[i] = pow2(); pl.push_back(x[i] + y[i]); mi.push_back(x[i] - y[i]); ti.push_back(x[i] * a); ov.push_back(x[i] / d); lo.push_back(a / P[i]); }
    op("Vector + Vector"); eqv(contents(V + W), pl, "sum");
    op("Vector - Vector"); eqv(contents(V - W), mi, "difference");
    op("Vector * value"); eqv(contents(V * a), ti, "product"); eqv(contents(a * V), ti, "product");
    op("Vector / value"); eqv(contents(V / d), ov, "quotient");
    op("value / Vector"); eqv(contents(a / P), lo, "quotient");
    op("operands of Vector operators");
    eqv(contents(V), std::vector<double>(x.buf.data() + x.off, x.buf.data() + x.off + n), "x");
    op("Vector constructors");
    eqv(contents(Vector<double>(n)), std::vector<double>(n, 0.0), "Vector(n)");
    eqv(contents(Vector<double>(n, a)), std::vector<double>(n, a), "Vector(n, a)");
    eqv(contents(Vector<double>(x.view())), contents(V), "Vector(view)");
    eqv(contents(Vector<double>(x.buf.data() + x.off, n)), contents(V), "Vector(ptr, n)");
    eqv(contents(Vector<double>(std::vector<double>(V.data()))), contents(V), "Vector(std::vector)");
    op("Vector::SetSize");
    int m = coin(1, 2) ? size_pick() : irand(0, n + 2);
    also(" m=" + str(m));
    Vector<double> S(V), S2(V);
    S.SetSize(m); S2.SetSize(m, a);
    auto w1 = contents(V), w2 = w1;
    w1.resize(m, 0.0); w2.resize(m, a);
    eqv(contents(S), w1, "SetSize"); eqv(contents(S2), w2, "SetSize(n, a)");
    op("Vector = view"); { const VectorView<double> xv = x.view(); S = xv; } eqv(contents(S), contents(V), "assigned");
    S = a; eqv(contents(S), std::vector<double>(n, a), "filled");
    op("sub-view");
    int i0 = irand(0, n), l = irand(0, n - i0);
    auto q = x; auto vw = q.view(); VectorView<double> sv(vw.begin() + i0, l); sv = a;
    auto wq = x; for (int i = i0; i < i0 + l; ++i) wq[i] = a;
    eqv(q.buf, wq.buf, "sub-view write");
    op("view copy"); q = x; wq = x; { VectorView<double> c1 = q.view(); VectorView<double> c2(c1); VectorView<double> c3(std::move(c2)); c3 += a; }
    for (int i = 0; i < n; ++i) wq[i] += a;
    eqv(q.buf, wq.buf, "write through copied view");
    op("view of std::vector"); { std::vector<double> sb = V.data(); VectorView<double> v1(sb); v1 *= a; eqv(sb, ti, "std::vector"); }
    op("swap(view, view)"); { int k = size_pick(); Win<double> u(k); auto u0 = u.buf, q0 = q.buf; auto v1 = q.view(), v2 = u.view(); swap(v1, v2); check(v1.size() == k && v2.size() == n, "sizes"); check(v1.begin() == u.buf.data() + u.off && v2.begin() == q.buf.data() + q.off, "ranges"); eqv(u.buf, u0, "u"); eqv(q.buf, q0, "q"); }
}
int main(int c, char** v) { return run(c, v, {inplace<double>, inplace<int>, reads<double>, reads<int>, more}); }
