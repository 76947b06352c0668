#include "common.hpp"

static int dim() { return coin(1, 8) ? 0 : size_pick(20); }
static DenseMatrix out(int r, int c)
{
    if (coin(1, 2)) return junkdense();
    DenseMatrix o(r, c); o = coin(1, 2) ? std::nan("") : 77.0; return o;
}
static void prods()
{
    int r = dim(), c = dim(), n = coin(1, 8) ? 0 : irand(1, 5);
    Csr a = csr(r, c); Mat m = dense_of(a), mt = transpose(m, r, c);
    Mat b = matrand(c, n), d = matrand(r, n);
    begin("sparse-dense product", str(a) + " B=" + str(b, c, n) + " D=" + str(d, r, n));
    SparseMatrix<double> A = mk(a);
    DenseMatrix B = dm(b, c, n), D = dm(d, r, n);
    Mat ab = mul(m, b, r, c, n), atd = mul(mt, d, c, r, n), abt = transpose(ab, r, n);
    eqd(A.Mult(B), ab, r, n, "Mult"); eqd(A.MultAT(D), atd, c, n, "MultAT"); eqd(A.MultCT(B), abt, n, r, "MultCT");
    { DenseMatrix O = out(r, n); A.Mult(B, O); eqd(O, ab, r, n, "Mult(out)"); }
    { DenseMatrix O = out(c, n); A.MultAT(D, O); eqd(O, atd, c, n, "MultAT(out)"); }
    { DenseMatrix O = out(n, r); A.MultCT(B, O); eqd(O, abt, n, r, "MultCT(out)"); }
    eqcsr(csr_of(A), a, "A unchanged"); eqd(B, b, c, n, "B unchanged"); eqd(D, d, r, n, "D unchanged");
}
static void conv()
{
    int r = dim(), c = dim();
    Csr a = csr(r, c, false); Mat m = dense_of(a), mt = transpose(m, r, c);
    begin("sparse to dense", str(a));
    SparseMatrix<double> A = mk(a);
    eqd(A.ToDense(), m, r, c, "ToDense"); eqd(A.TransposeDense(), mt, c, r, "TransposeDense");
    { DenseMatrix O = out(r, c); A.ToDense(O); eqd(O, m, r, c, "ToDense(out)"); }
    { DenseMatrix O = out(c, r); A.TransposeDense(O); eqd(O, mt, c, r, "TransposeDense(out)"); }
    eqcsr(csr_of(A), a, "A unchanged");
}
int main(int argc, char** argv) { return run(argc, argv, {prods, conv}); }
