#include "common.hpp"
static std::vector<int> offs()
{
    int n = irand(0, 4);
    std::vector<int> o(1, 0);
    for (int i = 0; i < n; ++i) o.push_back(o.back() + irand(0, 4));
    return o;
}
// the composition is checked against the blocks' own entries
struct Blk { bool set = false; Mat m; };
static std::vector<std::unique_ptr<Operator>> g_ops;
static const Operator& make(int r, int c, Mat& m)
{
    m = zeros(r, c);
    if (coin(1, 2)) { Csr a = csr(r, c); m = dense_of(a); g_ops.emplace_back(new SparseMatrix<double>(mk(a))); }
    else
    {
        for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m[i][j] = val();
        std::unique_ptr<DenseMatrix> d(new DenseMatrix(r, c));
        for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) (*d)(i, j) = m[i][j];
        g_ops.emplace_back(std::move(d));
    }
    return *g_ops.back();
}
static void op_history()
{
    g_ops.clear();
    std::vector<int> ro = offs(), co = offs();
    bool sq = coin(1, 3);
    if (sq) co = ro;
    size_t nr = ro.size() - 1, nc = co.size() - 1;
    std::vector<std::vector<Blk>> b(nr, std::vector<Blk>(nc));
    begin("BlockOperator", "offsets " + fz::str(ro) + " x " + fz::str(co));
    std::unique_ptr<BlockOperator> A(sq && coin(1, 2) ? new BlockOperator(ro) : new BlockOperator(ro, co));
    check(A->Rows() == ro.back() && A->Cols() == co.back() && A->GetRowOffsets() == ro && A->GetColOffsets() == co, "layout");
    int steps = irand(1, 5);
    for (int s = 0; s < steps; ++s)
    {
        if (nr && nc && coin(4, 5))
        {
            int i = irand(0, (int)nr - 1), j = irand(0, (int)nc - 1);
            const Operator& o = make(ro[i + 1] - ro[i], co[j + 1] - co[j], b[i][j].m);
            op("SetBlock"); A->SetBlock(i, j, o); b[i][j].set = true;
            check(A->GetBlock(i, j) == &o, "GetBlock");
            also(" set(" + fz::str(i) + "," + fz::str(j) + ")");
        }
        if (coin(1, 4)) { op("copy"); std::unique_ptr<BlockOperator> B(new BlockOperator(*A)); A.swap(B); also(" copy"); }
        int R = ro.back(), C = co.back();
        std::vector<double> x = vals(C), z = vals(R), y(R, 0.0), w(C, 0.0);
        for (size_t i = 0; i < nr; ++i) for (size_t j = 0; j < nc; ++j)
        {
            check((A->GetBlock(i, j) != nullptr) == b[i][j].set, "GetBlock null iff unset");
            if (b[i][j].set) for (int p = 0; p < ro[i + 1] - ro[i]; ++p) for (int q = 0; q < co[j + 1] - co[j]; ++q)
            { y[ro[i] + p] += b[i][j].m[p][q] * x[co[j] + q]; w[co[j] + q] += b[i][j].m[p][q] * z[ro[i] + p]; }
        }
        Vector<double> X = vect(x), Z = vect(z), Y = vect(junk(R)), W = vect(junk(C));
        also(" apply");
        if (coin(2, 3)) { op("Mult"); A->Mult(X, Y); eqv(get(Y), y, "Mult"); }
        if (coin(2, 3)) { op("MultAT"); A->MultAT(Z, W); eqv(get(W), w, "MultAT"); }
        if (coin(1, 2)) { op("Mult(x)"); eqv(get(A->Mult(X)), y, "Mult(x)"); }
        const Operator& O = *A;
        if (coin(1, 2)) { op("MultAT(x)"); eqv(get(O.MultAT(Z)), w, "MultAT(x)"); }
        eqv(get(X), x, "input"); eqv(get(Z), z, "input");
    }
}
static void slices(BlockVector<double>& v, std::vector<double>& ref, const std::vector<int>& o, const char* tag)
{
    check(v.size() == (int)ref.size() && v.GetOffsets() == o, std::string(tag) + " layout");
    eqv(get(v), ref, std::string(tag) + " entries");
    const BlockVector<double>& c = v;
    for (size_t i = 0; i + 1 < o.size(); ++i)
    {
        VectorView<double> s = v.GetBlock(i);
        const VectorView<double>& t = c.GetBlock(i);
        check(s.size() == o[i + 1] - o[i] && t.size() == s.size(), std::string(tag) + " slice length");
        for (int k = 0; k < s.size(); ++k)
        {
            check(&s[k] == &v[o[i] + k] && &t[k] == &c[o[i] + k], std::string(tag) + " slice aliases its range");
            if (coin(1, 3)) { s[k] = ref[o[i] + k] = val(); }
        }
    }
    eqv(get(v), ref, std::string(tag) + " entries after writing through slices");
}
static void vec_history()
{
    std::vector<int> o = offs();
    int n = o.back();
    begin("BlockVector", "offsets " + fz::str(o));
    std::vector<double> ref(n, 0.0);
    std::unique_ptr<BlockVector<double>> v;
    int how = irand(0, 2);
    double x = val();
    if (how == 0) { v.reset(new BlockVector<double>(o)); *v = x; ref.assign(n, x); }
    else if (how == 1) { v.reset(new BlockVector<double>(o, x)); ref.assign(n, x); }
    else { ref = vals(n); Vector<double> d = vect(ref); v.reset(new BlockVector<double>(d, o)); for (int i = 0; i < n; ++i) d[i] += 1.0; }
    slices(*v, ref, o, "constructed:");
    BlockVector<double> w(*v);
    std::vector<double> wr = ref;
    slices(w, wr, o, "copy:");
    eqv(get(*v), ref, "original after changing a copy");
    std::vector<int> o2 = offs();
    BlockVector<double> u(o2, 7.0);
    op("assign"); u = *v;
    std::vector<double> ur = ref;
    slices(u, ur, o, "assigned:");
    eqv(get(*v), ref, "original after changing an assigned copy");
    op("assign view"); { Vector<double> d = vect(wr); *v = static_cast<const VectorView<double>&>(d); ref = wr; }
    slices(*v, ref, o, "assigned from a view:");
    BlockVector<double> mv(std::move(u));
    slices(mv, ur, o, "moved:");
}
int main(int argc, char** argv) { g_flat = true; return run(argc, argv, {op_history, vec_history}); }
