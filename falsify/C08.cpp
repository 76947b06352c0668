#include "common.hpp"

struct Ent { int i, j; double v; };
// touched: rows that have a list (automatic size; dropping entries keeps them)
struct Ref { bool sized; int rows, cols, touched; std::vector<Ent> e; };
static void grow(const Ref& r, int& R, int& C)
{
    if (r.sized) { R = r.rows; C = r.cols; return; }
    R = C = 1;
    R = std::max(1, r.touched);
    for (auto& x : r.e) C = std::max(C, x.j + 1);
}
static std::string str(const Ref& r)
{
    std::string s = r.sized ? "fixed " + fz::str(r.rows) + "x" + fz::str(r.cols) : "automatic size";
    for (auto& x : r.e) s += " (" + fz::str(x.i) + "," + fz::str(x.j) + ")=" + num(x.v);
    return s;
}
static Mat mat(const Ref& r, int R, int C)
{
    Mat m = zeros(R, C);
    for (auto& x : r.e) m[x.i][x.j] += x.v;
    return m;
}
static std::vector<int> ids(int n, int lim)
{
    std::vector<int> v(n);
    for (auto& x : v) x = irand(0, lim - 1);
    return v;
}
static void forms(const LilMatrix<double>& A, const Ref& ref)
{
    int R, C; grow(ref, R, C);
    Mat m = mat(ref, R, C), t = transpose(m, R, C);
    op("ToDense"); eqd(A.ToDense(), m, R, C, "ToDense()");
    DenseMatrix D = junkdense(); A.ToDense(D); eqd(D, m, R, C, "ToDense(D)");
    op("ToSparse");
    SparseMatrix<double> S = A.ToSparse();
    eqmat(csr_of(S), m, R, C, "ToSparse()");
    Csr a = csr_of(S);
    for (int i = 0; i < a.rows; ++i) for (int k = a.p[i]; k + 1 < a.p[i + 1]; ++k)
        check(a.ix[k] < a.ix[k + 1], "ToSparse(): columns sorted");
    std::set<std::pair<int, int>> want, got;
    for (auto& x : ref.e) want.insert({x.i, x.j});
    for (int i = 0; i < a.rows; ++i) for (int k = a.p[i]; k < a.p[i + 1]; ++k)
        check(got.insert({i, a.ix[k]}).second, "ToSparse(): repeated coordinate");
    check(got == want, "ToSparse(): pattern");
    op("Mult");
    std::vector<double> x = vals(C), z = vals(R), y(R, 0.0), w(C, 0.0);
    for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) { y[i] += m[i][j] * x[j]; w[j] += m[i][j] * z[i]; }
    also(" x=" + fz::str(x) + " z=" + fz::str(z));
    Vector<double> X = vect(x), Z = vect(z), Y = vect(junk(R)), W = vect(junk(C));
    A.Mult(X, Y); eqv(get(Y), y, "Mult");
    op("MultAT"); A.MultAT(Z, W); eqv(get(W), w, "MultAT");
    check(A.Rows() == R && A.Cols() == C, "Rows(), Cols()");
    if (ref.sized)
    {
        const Operator& O = A;
        eqv(get(O.Mult(X)), y, "Mult(x)"); eqv(get(O.MultAT(Z)), w, "MultAT(x)");
    }
    eqv(get(X), x, "input"); eqv(get(Z), z, "input");
}
static void history()
{
    Ref ref; ref.sized = coin(1, 2); ref.rows = irand(0, 6); ref.cols = irand(0, 6); ref.touched = 0;
    LilMatrix<double> A = ref.sized ? LilMatrix<double>(ref.rows, ref.cols) : LilMatrix<double>();
    begin("Add", "");
    int lr = ref.sized ? ref.rows : irand(1, 7), lc = ref.sized ? ref.cols : irand(1, 7);
    int steps = irand(0, 6), sq = std::min(lr, lc);
    if (lr == 0 || lc == 0) steps = 0;
    auto put = [&](int i, int j, double v) { ref.e.push_back({i, j, v}); ref.touched = std::max(ref.touched, i + 1); };
    for (int s = 0; s < steps; ++s)
    {
        int k = irand(0, 3);
        if (k == 0) { int i = irand(0, lr - 1), j = irand(0, lc - 1); double v = val(); A.Add(i, j, v); put(i, j, v); }
        else if (k == 1) { int i = irand(0, sq - 1), j = coin(1, 3) ? i : irand(0, sq - 1); double v = val(); A.AddSym(i, j, v); put(i, j, v); if (i != j) put(j, i, v); }
        else
        {
            int r = irand(0, 3), c = k == 2 ? r : irand(0, 3);
            std::vector<int> I = ids(r, k == 2 ? sq : lr), J = k == 2 ? I : ids(c, lc);
            Mat b = matrand(r, c); DenseMatrix B = dm(b, r, c);
            if (k == 2) A.Add(I, B); else A.Add(I, J, B);
            for (int j = 0; j < c; ++j) for (int i = 0; i < r; ++i) put(I[i], J[j], b[i][j]);
        }
    }
    g_case = str(ref);
    forms(A, ref);
    int R, C; grow(ref, R, C);
    int k = irand(0, 2);
    if (k == 1)
    {
        double t = coin(1, 2) ? 0.0 : irand(0, 6) * 0.5;
        op("EliminateZeros");
        also(" eliminate " + num(t));
        if (t == 0.0 && coin(1, 2)) A.EliminateZeros(); else A.EliminateZeros(t);
        std::vector<Ent> keep;
        for (auto& x : ref.e) if (std::fabs(x.v) > t) keep.push_back(x);
        ref.e = keep;
    }
    else if (k == 2)
    {
        op("SetSize");
        ref.rows = R + irand(0, 3); ref.cols = C + irand(0, 3); ref.sized = true;
        also(" SetSize " + fz::str(ref.rows) + "x" + fz::str(ref.cols));
        A.SetSize(ref.rows, ref.cols);
    }
    forms(A, ref);
}
int main(int argc, char** argv) { g_flat = true; return run(argc, argv, {history}); }
