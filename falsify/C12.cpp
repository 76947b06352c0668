#include "common.hpp"

struct Ref { std::vector<int> ro, co; std::vector<std::vector<int>> set; std::vector<std::vector<Csr>> b; };
static std::vector<int> offs()
{
    int n = irand(0, 4);
    std::vector<int> o(1, 0);
    for (int i = 0; i < n; ++i) o.push_back(o.back() + irand(0, 4));
    return o;
}
static Mat mat(const Ref& r)
{
    Mat m = zeros(r.ro.back(), r.co.back());
    for (size_t i = 0; i + 1 < r.ro.size(); ++i) for (size_t j = 0; j + 1 < r.co.size(); ++j) if (r.set[i][j])
    {
        Mat b = dense_of(r.b[i][j]);
        for (int p = 0; p < r.b[i][j].rows; ++p) for (int q = 0; q < r.b[i][j].cols; ++q) m[r.ro[i] + p][r.co[j] + q] += b[p][q];
    }
    return m;
}
static std::string str(const Ref& r)
{
    std::string s = "offsets " + fz::str(r.ro) + " x " + fz::str(r.co);
    for (size_t i = 0; i < r.set.size(); ++i) for (size_t j = 0; j < r.set[i].size(); ++j) if (r.set[i][j]) s += " (" + fz::str((int)i) + "," + fz::str((int)j) + "): " + fz::str(r.b[i][j]);
    return s;
}
static void same(const Csr& a, const Csr& b, const char* what)
{
    check(a.rows == b.rows && a.cols == b.cols && a.p == b.p && a.ix == b.ix && a.dt == b.dt, what);
}
static void forms(const BlockMatrix<double>& A, const Ref& ref, const char* tag)
{
    int R = ref.ro.back(), C = ref.co.back();
    Mat m = mat(ref);
    check(A.Rows() == R && A.Cols() == C && A.GetRowOffsets() == ref.ro && A.GetColOffsets() == ref.co, std::string(tag) + " layout");
    std::vector<double> x = vals(C), z = vals(R), y(R, 0.0), w(C, 0.0);
    for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) { y[i] += m[i][j] * x[j]; w[j] += m[i][j] * z[i]; }
    Vector<double> X = vect(x), Z = vect(z), Y = vect(junk(R)), W = vect(junk(C));
    op("Mult"); A.Mult(X, Y); eqv(get(Y), y, std::string(tag) + " Mult"); eqv(get(A.Mult(X)), y, std::string(tag) + " Mult(x)");
    op("MultAT"); A.MultAT(Z, W); eqv(get(W), w, std::string(tag) + " MultAT");
    const Operator& O = A;
    eqv(get(O.MultAT(Z)), w, std::string(tag) + " MultAT(x)");
    eqv(get(X), x, "input"); eqv(get(Z), z, "input");
    op("Combine");
    SparseMatrix<double> S = A.Combine();
    Csr a = csr_of(S);
    valid(a, std::string(tag) + " Combine()");
    eqmat(a, m, R, C, std::string(tag) + " Combine()");
    size_t nnz = 0;
    for (size_t i = 0; i < ref.set.size(); ++i) for (size_t j = 0; j < ref.set[i].size(); ++j) if (ref.set[i][j]) nnz += ref.b[i][j].ix.size();
    check(a.ix.size() == nnz, std::string(tag) + " Combine(): entry count");
}
static void history()
{
    Ref ref; ref.ro = offs(); ref.co = offs();
    bool sq = coin(1, 3);
    if (sq) ref.co = ref.ro;
    size_t nr = ref.ro.size() - 1, nc = ref.co.size() - 1;
    ref.set.assign(nr, std::vector<int>(nc, 0)); ref.b.assign(nr, std::vector<Csr>(nc));
    BlockMatrix<double> A = sq && coin(1, 2) ? BlockMatrix<double>(ref.ro) : BlockMatrix<double>(ref.ro, ref.co);
    int steps = nr && nc ? irand(0, 6) : 0;
    begin("SetBlock", "offsets " + fz::str(ref.ro) + " x " + fz::str(ref.co));
    for (int s = 0; s < steps; ++s)
    {
        int i = irand(0, (int)nr - 1), j = irand(0, (int)nc - 1);
        Csr b = csr(ref.ro[i + 1] - ref.ro[i], ref.co[j + 1] - ref.co[j], false);
        A.SetBlock(i, j, mk(b)); ref.set[i][j] = 1; ref.b[i][j] = b;
    }
    g_case = str(ref);
    for (size_t i = 0; i < nr; ++i) for (size_t j = 0; j < nc; ++j)
    {
        if (ref.set[i][j]) same(csr_of(A.GetBlock(i, j)), ref.b[i][j], "GetBlock");
        else check(A.GetBlock(i, j).nnz() == 0, "unset block has entries");
    }
    forms(A, ref, "");
    op("Transpose");
    BlockMatrix<double> T = A.Transpose();
    Ref t; t.ro = ref.co; t.co = ref.ro; t.set.assign(nc, std::vector<int>(nr, 0)); t.b.assign(nc, std::vector<Csr>(nr));
    for (size_t i = 0; i < nr; ++i) for (size_t j = 0; j < nc; ++j) if (ref.set[i][j])
    {
        t.set[j][i] = 1;
        Mat m = dense_of(ref.b[i][j]);
        Csr c; c.rows = ref.b[i][j].cols; c.cols = ref.b[i][j].rows; c.p.push_back(0);
        for (int q = 0; q < c.rows; ++q) { for (int p = 0; p < c.cols; ++p) { bool has = false; for (int k = ref.b[i][j].p[p]; k < ref.b[i][j].p[p + 1]; ++k) has = has || ref.b[i][j].ix[k] == q; if (has) { c.ix.push_back(p); c.dt.push_back(m[p][q]); } } c.p.push_back(c.ix.size()); }
        t.b[j][i] = c;
    }
    forms(T, t, "transpose:");
    op("copy");
    BlockMatrix<double> B(A);
    if (nr && nc) { int i = irand(0, (int)nr - 1), j = irand(0, (int)nc - 1); Csr b = csr(ref.ro[i + 1] - ref.ro[i], ref.co[j + 1] - ref.co[j], false); B.SetBlock(i, j, mk(b)); }
    forms(A, ref, "after changing a copy:");
}
int main(int argc, char** argv) { g_flat = true; return run(argc, argv, {history}); }
