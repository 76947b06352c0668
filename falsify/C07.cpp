#include "common.hpp"

struct Ent { int i, j; double v; };
struct Ref { bool sized; int rows, cols; std::vector<Ent> e; };
static void grow(const Ref& r, int& R, int& C)
{
    if (r.sized) { R = r.rows; C = r.cols; return; }
    R = C = 1;
    for (auto& x : r.e) { R = std::max(R, x.i + 1); C = std::max(C, x.j + 1); }
}
static std::string str(const Ref& r)
{
    std::string s = r.sized ? "fixed " + fz::str(r.rows) + "x" + fz::str(r.cols) : "automatic size";
    for (auto& x : r.e) s += " (" + fz::str(x.i) + "," + fz::str(x.j) + ")=" + num(x.v);
    return s;
}
static Mat mat(const Ref& r, int R, int C)
{
    Mat m = zeros(R, C);
    for (auto& x : r.e) m[x.i][x.j] += x.v;
    return m;
}
static std::vector<int> ids(int n, int lim)
{
    std::vector<int> v(n);
    for (auto& x : v) x = irand(0, lim - 1);
    return v;
}
static void forms(const CooMatrix<double>& A, const Ref& ref)
{
    int R, C; grow(ref, R, C);
    Mat m = mat(ref, R, C), t = transpose(m, R, C);
    op("ToDense"); eqd(A.ToDense(), m, R, C, "ToDense()");
    DenseMatrix D = junkdense(); A.ToDense(D); eqd(D, m, R, C, "ToDense(D)");
    op("ToSparse");
    SparseMatrix<double> S = A.ToSparse();
    eqmat(csr_of(S), m, R, C, "ToSparse()");
    Csr a = csr_of(S);
    std::set<std::pair<int, int>> want, got;
    for (auto& x : ref.e) want.insert({x.i, x.j});
    for (int i = 0; i < a.rows; ++i) for (int k = a.p[i]; k < a.p[i + 1]; ++k)
        check(got.insert({i, a.ix[k]}).second, "ToSparse(): repeated coordinate");
    check(got == want, "ToSparse(): pattern");
    op("Mult");
    std::vector<double> x = vals(C), z = vals(R), y(R, 0.0), w(C, 0.0);
    for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) { y[i] += m[i][j] * x[j]; w[j] += m[i][j] * z[i]; }
    also(" x=" + fz::str(x) + " z=" + fz::str(z));
    Vector<double> X = vect(x), Z = vect(z), Y = vect(junk(R)), W = vect(junk(C));
    A.Mult(X, Y); eqv(get(Y), y, "Mult");
    op("MultAT"); A.MultAT(Z, W); eqv(get(W), w, "MultAT");
    if (ref.sized)
    {
        const Operator& O = A;
        eqv(get(O.Mult(X)), y, "Mult(x)"); eqv(get(O.MultAT(Z)), w, "MultAT(x)");
    }
    eqv(get(X), x, "input"); eqv(get(Z), z, "input");
}
static void history()
{
    Ref ref; ref.sized = coin(1, 2); ref.rows = irand(0, 6); ref.cols = irand(0, 6);
    CooMatrix<double> A = ref.sized ? CooMatrix<double>(ref.rows, ref.cols) : CooMatrix<double>();
    begin("Add", "");
    int lr = ref.sized ? ref.rows : irand(1, 7), lc = ref.sized ? ref.cols : irand(1, 7);
    int steps = irand(0, 5), sq = std::min(lr, lc);
    if (lr == 0 || lc == 0) steps = 0;
    const double s0 = 1.0;
    for (int s = 0; s < steps; ++s)
    {
        double sc = coin(1, 6) ? 0.0 : val();
        int k = irand(0, 12);
        size_t from = ref.e.size();
        if (k == 0) { int i = irand(0, lr - 1), j = irand(0, lc - 1); double v = val() * s0; A.Add(i, j, v); ref.e.push_back({i, j, v}); }
        else if (k == 1) { int i = irand(0, sq - 1), j = coin(1, 3) ? i : irand(0, sq - 1); double v = val(); A.AddSym(i, j, v); ref.e.push_back({i, j, v}); if (i != j) ref.e.push_back({j, i, v}); }
        else if (k <= 5)
        {
            int r = irand(0, 3), c = (k == 2 || k == 4) ? r : irand(0, 3);
            std::vector<int> I = ids(r, (k == 2 || k == 4) ? sq : lr), J = (k == 2 || k == 4) ? I : ids(c, lc);
            Mat b = matrand(r, c); DenseMatrix B = dm(b, r, c);
            if (k == 2) A.Add(I, B); else if (k == 3) A.Add(I, J, B); else if (k == 4) A.Add(I, sc, B); else A.Add(I, J, sc, B);
            for (int j = 0; j < c; ++j) for (int i = 0; i < r; ++i) ref.e.push_back({I[i], J[j], k >= 4 ? sc * b[i][j] : b[i][j]});
        }
        else if (k <= 9)
        {
            int n = irand(0, 4); bool row = k & 1;
            std::vector<int> I = ids(n, row ? lc : lr); int f = irand(0, (row ? lr : lc) - 1);
            std::vector<double> v = vals(n); Vector<double> V = vect(v);
            if (k == 6) A.Add(I, f, V); else if (k == 7) A.Add(f, I, V); else if (k == 8) A.Add(I, f, sc, V); else A.Add(f, I, sc, V);
            for (int e = 0; e < n; ++e) { double q = k >= 8 ? sc * v[e] : v[e]; if (row) ref.e.push_back({f, I[e], q}); else ref.e.push_back({I[e], f, q}); }
        }
        else if (k <= 11)
        {
            int n = irand(0, 4);
            std::vector<int> I = ids(n, lr), J = ids(n, lc); std::vector<double> v = vals(n);
            if (k == 10) A.Add(I, J, v); else A.Add(I, J, sc, v);
            for (int e = 0; e < n; ++e) ref.e.push_back({I[e], J[e], k == 11 ? sc * v[e] : v[e]});
        }
        else A.Reserve(irand(0, 20));
        for (size_t e = from; e < ref.e.size(); ++e) (void)e;
    }
    g_case = str(ref);
    forms(A, ref);
    int R, C; grow(ref, R, C);
    int k = irand(0, 4);
    if (k == 0)
    {
        // any map into the range, permutations included
        op("PermuteRows/Cols");
        std::vector<int> p(R), q(C);
        for (int i = 0; i < R; ++i) p[i] = i;
        for (int i = 0; i < C; ++i) q[i] = i;
        for (int i = R - 1; i > 0; --i) std::swap(p[i], p[irand(0, i)]);
        for (int i = C - 1; i > 0; --i) std::swap(q[i], q[irand(0, i)]);
        int w = irand(0, 2);
        also(" permute " + fz::str(p) + fz::str(q) + " mode " + fz::str(w));
        if (w == 0) A.PermuteRows(p); else if (w == 1) A.PermuteCols(q); else A.PermuteRowsCols(p, q);
        for (auto& x : ref.e) { if (w != 1) x.i = p[x.i]; if (w != 0) x.j = q[x.j]; }
    }
    else if (k <= 2)
    {
        double t = coin(1, 2) ? 0.0 : irand(0, 6) * 0.5;
        op("EliminateZeros");
        also(" eliminate " + num(t));
        if (t == 0.0 && coin(1, 2)) A.EliminateZeros(); else A.EliminateZeros(t);
        std::vector<Ent> keep;
        for (auto& x : ref.e) if (std::fabs(x.v) > t) keep.push_back(x);
        ref.e = keep;
    }
    else if (k == 3)
    {
        op("SetSize");
        ref.rows = R + irand(0, 3); ref.cols = C + irand(0, 3); ref.sized = true;
        also(" SetSize " + fz::str(ref.rows) + "x" + fz::str(ref.cols));
        A.SetSize(ref.rows, ref.cols);
    }
    forms(A, ref);
}
int main(int argc, char** argv) { g_flat = true; return run(argc, argv, {history}); }
