#include "common.hpp"

static Csr want(const Csr& a, const std::vector<int>& rows, const std::vector<int>& cols)
{
    Csr w; w.rows = rows.size(); w.cols = cols.size(); w.p.push_back(0);
    for (int r : rows)
    {
        for (int k = a.p[r]; k < a.p[r + 1]; ++k) for (size_t j = 0; j < cols.size(); ++j)
            if (cols[j] == a.ix[k]) { w.ix.push_back(j); w.dt.push_back(a.dt[k]); }
        w.p.push_back(w.ix.size());
    }
    return w;
}
static void lists(int r, int c, std::vector<int>& rows, std::vector<int>& cols)
{
    rows.clear(); cols.clear();
    int n = coin(1, 6) ? 0 : irand(0, r + 2);
    if (r) for (int i = 0; i < n; ++i) rows.push_back(irand(0, r - 1));
    std::vector<int> p(c); for (int j = 0; j < c; ++j) p[j] = j;
    for (int j = c - 1; j > 0; --j) std::swap(p[j], p[irand(0, j)]);
    int m = coin(1, 6) ? (coin(1, 2) ? 0 : c) : irand(0, c);
    cols.assign(p.begin(), p.begin() + m);
    if (coin(1, 3)) std::sort(cols.begin(), cols.end());
    if (coin(1, 3)) std::sort(rows.begin(), rows.end());
}
static void extract()
{
    int r = size_pick(), c = size_pick();
    Csr a = csr(r, c);
    const SparseMatrix<double> A = mk(a);
    std::vector<int> rows, cols, marker(c + (coin(1, 2) ? 0 : irand(0, 4)), -1);
    const size_t len = marker.size();
    lists(r, c, rows, cols);
    begin("GetSubMatrix", str(a) + " rows=" + str(rows) + " cols=" + str(cols));
    eqcsr(csr_of(A.GetSubMatrix(rows, cols)), want(a, rows, cols), "GetSubMatrix(rows, cols)");
    int reps = irand(1, 3);
    for (int i = 0; i < reps; ++i)
    {
        if (i) { lists(r, c, rows, cols); also(" then rows=" + str(rows) + " cols=" + str(cols)); }
        auto rows0 = rows, cols0 = cols;
        eqcsr(csr_of(A.GetSubMatrix(rows, cols, marker)), want(a, rows, cols), "GetSubMatrix(rows, cols, marker)");
        check(marker.size() == len, "marker length");
        for (int m : marker) check(m == -1, "marker not restored " + str(marker));
        check(rows == rows0 && cols == cols0, "index lists changed");
    }
    eqcsr(csr_of(A), a, "A unchanged");
}
int main(int argc, char** argv) { return run(argc, argv, {extract}); }
