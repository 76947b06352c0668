#include "common.hpp"

static void one()
{
    Csr a = csr(size_pick(), size_pick());
    const SparseMatrix<double> A = mk(a);
    Mat m = dense_of(a);
    auto x = vals(a.cols), xt = vals(a.rows);
    std::vector<double> y(a.rows, 0.0), yt(a.cols, 0.0);
    for (int i = 0; i < a.rows; ++i) for (int j = 0; j < a.cols; ++j) { y[i] += m[i][j] * x[j]; yt[j] += m[i][j] * xt[i]; }
    begin("SparseMatrix::Mult", str(a) + " x=" + str(x) + " xt=" + str(xt), a.ix.size() > 0);
    const Vector<double> X = vect(x), XT = vect(xt);
    {
        // output in the middle of a larger buffer: frame
        auto buf = junk(a.rows + 4), ref = buf;
        VectorView<double> out(buf.data() + 2, a.rows);
        A.Mult<double, double>(X, out);
        for (int i = 0; i < a.rows; ++i) ref[i + 2] = y[i];
        eqv(buf, ref, "y (with guard elements)");
    }
    op("SparseMatrix::MultAT");
    {
        auto buf = junk(a.cols + 4), ref = buf;
        VectorView<double> out(buf.data() + 2, a.cols);
        A.MultAT<double, double>(XT, out);
        for (int i = 0; i < a.cols; ++i) ref[i + 2] = yt[i];
        eqv(buf, ref, "y (with guard elements)");
    }
    op("SparseMatrix::Mult (returning)"); eqv(get(A.Mult<double>(X)), y, "y");
    op("SparseMatrix::MultAT (returning)"); eqv(get(A.MultAT<double>(XT)), yt, "y");
    op("SparseMatrix::operator*"); eqv(get(A.operator*<double>(X)), y, "y");
    const Operator& O = A;
    Vector<double> o1(vect(junk(a.rows))), o2(vect(junk(a.cols)));
    op("Operator::Mult"); O.Mult(X, o1); eqv(get(o1), y, "y");
    op("Operator::MultAT"); O.MultAT(XT, o2); eqv(get(o2), yt, "y");
    op("Operator::Mult (returning)"); eqv(get(O.Mult(X)), y, "y");
    op("Operator::MultAT (returning)"); eqv(get(O.MultAT(XT)), yt, "y");
    op("A unchanged"); eqcsr(csr_of(A), a, "A");
    eqv(get(X), x, "x"); eqv(get(XT), xt, "x");
}
int main(int c, char** v) { return run(c, v, {one}); }
