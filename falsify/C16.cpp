#include "common.hpp"
static Mat g_A;                                    // the SPD matrix in use
static std::vector<double> g_b;
static const double* g_x = nullptr;                // the live iterate
static int g_n = 0, g_applied = 0;
static std::vector<std::vector<double>> g_xs, g_rs;
static void snap() { if (g_x) g_xs.push_back(std::vector<double>(g_x, g_x + g_n)); }
struct Op : Operator
{
    Mat m; bool pre;
    Op(const Mat& m_, bool p) : Operator(m_.size(), m_.size()), m(m_), pre(p) {}
    using Operator::Mult;
    void Mult(const VectorView<double>& in, VectorView<double> out) const override
    {
        snap();
        check(in.size() == g_n && out.size() == g_n, "operator applied to vectors of its size");
        if (pre) { std::vector<double> r(g_n); for (int i = 0; i < g_n; ++i) r[i] = in[i]; g_rs.push_back(r); }
        else ++g_applied;
        for (int i = 0; i < g_n; ++i) { double s = 0; for (int j = 0; j < g_n; ++j) s += m[i][j] * in[j]; out[i] = s; }
    }
};
static Mat spd(int n, bool diag)
{
    Mat a = zeros(n, n), l = zeros(n, n);
    for (int i = 0; i < n; ++i) { a[i][i] = irand(1, 4); if (!diag) for (int j = 0; j < n; ++j) l[i][j] = irand(-1, 1); }
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k < n; ++k) a[i][j] += l[i][k] * l[j][k];
    return a;
}
static std::vector<double> residual(const std::vector<double>& x)
{
    std::vector<double> r(g_b);
    for (int i = 0; i < g_n; ++i) for (int j = 0; j < g_n; ++j) r[i] -= g_A[i][j] * x[j];
    return r;
}
static double squared(const Mat* M, const std::vector<double>& r)
{
    double s = 0;
    for (int i = 0; i < g_n; ++i)
    {
        double z = r[i];
        if (M) { z = 0; for (int j = 0; j < g_n; ++j) z += (*M)[i][j] * r[j]; }
        s += z * r[i];
    }
    return s;
}
static double g_scale;
static double big(const std::vector<double>& v) { double m = 0; for (double x : v) m = std::max(m, std::fabs(x)); return m; }
static void solve()
{
    int n = g_n = coin(1, 30) ? 0 : irand(1, 7);
    g_x = nullptr; g_xs.clear(); g_rs.clear(); g_applied = 0;
    g_A = spd(n, coin(1, 4));
    bool pre = coin(1, 2);
    Mat M = spd(n, coin(1, 2));
    static const double rels[] = {0, 1e-10, 1e-6, 1e-2, 0.5, 1.0, 2.0}, abss[] = {0, 1e-9, 1e-4, 0.5, 3.0};
    double rel = rels[irand(0, 6)], abst = abss[irand(0, 4)];
    int mx = rel == 0 && abst == 0 ? irand(0, 4) : coin(1, 2) ? irand(0, 4) : irand(5, 40);
    std::vector<double> x0(n);
    for (auto& v : x0) v = coin(1, 5) ? 0 : irand(-5, 5);
    bool exact = coin(1, 5);
    g_b.assign(n, 0.0);
    if (exact) { for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) g_b[i] += g_A[i][j] * x0[j]; }
    else for (auto& v : g_b) v = irand(-6, 6);
    std::ostringstream d;
    d.precision(17);
    d << "n=" << n << " A=" << fz::str(g_A) << (pre ? " M=" + fz::str(M) : std::string()) << " b=" << fz::str(g_b) << " x0=" << fz::str(x0) << " max_iter=" << mx << " rel_tol=" << rel << " abs_tol=" << abst;
    std::string desc;
    for (char c : d.str()) desc += c == '\n' ? ' ' : c;
    begin(pre ? "PCGSolver::Mult (preconditioned)" : "PCGSolver::Mult", desc, n > 0);
    Op A(g_A, false), P(M, true);
    std::vector<double> guard = junk(n + 4);
    Vector<double> buf = vect(guard);
    for (int i = 0; i < n; ++i) buf[i + 2] = x0[i];
    g_x = &buf[0] + 2;
    VectorView<double> x(&buf[0] + 2, n);
    Vector<double> b = vect(g_b);
    int how = irand(0, 3), its = -1;
    if (how == 0)
    {
        if (pre) { op("PCG"); PCG(A, P, b, x, mx, rel, abst, false); } else { op("CG"); CG(A, b, x, mx, rel, abst, false); }
    }
    else
    {
        std::unique_ptr<PCGSolver> s(pre ? new PCGSolver(A, P, mx, rel, abst, false) : new PCGSolver(A, mx, rel, abst, false));
        if (how == 2) { s->SetMaxIter(mx + 3); s->SetRelTol(0.25); s->SetAbsTol(7.0); Vector<double> t = vect(std::vector<double>(n, 1.0)); const double* k = g_x; g_x = nullptr; s->Mult(b, t); g_x = k;
                        g_xs.clear(); g_rs.clear(); g_applied = 0; s->SetMaxIter(mx); s->SetRelTol(rel); s->SetAbsTol(abst); also(" reused solver"); }
        if (how == 3) { std::unique_ptr<PCGSolver> c(new PCGSolver(*s)); s = std::move(c); also(" copied solver"); }
        s->Mult(b, x);
        its = s->GetNumIterations();
    }
    snap();
    int limit = std::max(1, mx);
    if (its >= 0) check(its >= 1 && its <= limit, "reported iterations " + fz::str(its) + " not in 1..max(1,max_iter)");
    check(g_applied <= limit + 1, "more than max(1,max_iter) steps: the operator was applied " + fz::str(g_applied) + " times");
    eqv(get(b), g_b, "right-hand side");
    guard.resize(n + 4);
    for (int i = 0; i < 2; ++i) check(buf[i] == guard[i] && buf[n + 2 + i] == guard[n + 2 + i], "entries outside x are kept");
    std::vector<double> xf(g_x, g_x + n);
    if (exact) { eqv(xf, x0, "exact initial guess"); return; }
    for (double v : xf) check(std::isfinite(v), "solution is finite");
    g_scale = 1;
    for (auto& xs : g_xs) g_scale = std::max(g_scale, 64 * big(xs));
    // the residual handed to the preconditioner is b - A x of the iterate
    for (auto& r : g_rs)
    {
        bool hit = false;
        for (auto& xs : g_xs)
        {
            std::vector<double> t = residual(xs);
            double e = 0;
            for (int i = 0; i < n; ++i) e = std::max(e, std::fabs(t[i] - r[i]));
            hit = hit || e <= 1e-8 * g_scale;
        }
        check(hit, "the carried residual " + fz::str(r) + " is not b - A x of any iterate");
    }
    double q0 = squared(pre ? &M : nullptr, residual(x0)), q = squared(pre ? &M : nullptr, residual(xf));
    double tol = std::max(q0 * rel * rel, abst * abst);
    if (its >= 0 && its < limit)
        check(q <= tol * 1.001 + 1e-17 * g_scale * g_scale, "stopped before the limit with squared residual " + fz::str(q) + " above " + fz::str(tol));
    if (q0 < tol * 0.999) eqv(xf, x0, "guess within tolerance");
}
int main(int argc, char** argv) { g_flat = true; return run(argc, argv, {solve}); }
