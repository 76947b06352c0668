#include "common.hpp"
#include <new>

// value snapshots
static std::string S(const Vector<double>& v)
{
    if (v.size() != (int)v.data().size()) fail("view length differs from storage length");
    if (v.size() && v.begin() != v.data().data()) fail("view does not address its own storage");
    return str(get(v));
}
static std::string S(const Vector<int>& v)
{
    if (v.size() != (int)v.data().size()) fail("view length differs from storage length");
    if (v.size() && v.begin() != v.data().data()) fail("view does not address its own storage");
    return str(v.data());
}
static std::string S(const DenseMatrix& m)
{
    std::vector<double> d; m.CopyData(d);
    if ((int)d.size() != m.Rows() * m.Cols()) fail("dense storage size");
    return str(m.Rows()) + "x" + str(m.Cols()) + str(d);
}
template <typename T> std::string S(const SparseMatrix<T>& m)
{
    return str(m.Rows()) + "x" + str(m.Cols()) + str(m.GetIndptr()) + str(m.GetIndices()) + str(m.GetData());
}
static std::string S(const CooMatrix<double>& m)
{
    std::ostringstream o; o.precision(17); m.Print("", o);
    return S(m.ToDense()) + ":" + str(m.Rows()) + "x" + str(m.Cols()) + ":" + o.str();
}
static std::string S(const LilMatrix<double>& m) { DenseMatrix d = m.ToDense(); return S(d) + ":" + str(m.Rows()) + "x" + str(m.Cols()); }
static std::string S(const BlockVector<double>& v) { return S(static_cast<const Vector<double>&>(v)) + str(v.GetOffsets()); }
static std::string S(const BlockMatrix<double>& m)
{
    std::string s = str(m.Rows()) + "x" + str(m.Cols()) + str(m.GetRowOffsets()) + str(m.GetColOffsets());
    for (size_t i = 0; i + 1 < m.GetRowOffsets().size(); ++i) for (size_t j = 0; j + 1 < m.GetColOffsets().size(); ++j) s += S(m.GetBlock(i, j));
    return s;
}
// generators and mutations
static void gen(Vector<double>*& p, void* mem) { p = new (mem) Vector<double>(vect(vals(size_pick(12)))); }
static void gen(Vector<int>*& p, void* mem) { std::vector<int> v(irand(0, 8)); for (auto& x : v) x = irand(-9, 9); p = new (mem) Vector<int>(v); }
static void gen(DenseMatrix*& p, void* mem) { int r = irand(0, 6), c = irand(0, 6); p = new (mem) DenseMatrix(dm(matrand(r, c), r, c)); }
static void gen(SparseMatrix<double>*& p, void* mem) { p = new (mem) SparseMatrix<double>(mk(csr(irand(0, 8), irand(0, 8)))); }
static void gen(CooMatrix<double>*& p, void* mem)
{
    int r = irand(1, 6), c = irand(1, 6);
    if (coin(1, 2)) p = new (mem) CooMatrix<double>(r, c); else p = new (mem) CooMatrix<double>();
    for (int k = irand(0, 8); k > 0; --k) p->Add(irand(0, r - 1), irand(0, c - 1), val());
}
static void gen(LilMatrix<double>*& p, void* mem)
{
    int r = irand(1, 6), c = irand(1, 6);
    p = new (mem) LilMatrix<double>(r, c);
    for (int k = irand(0, 8); k > 0; --k) p->Add(irand(0, r - 1), irand(0, c - 1), val());
}
static std::vector<int> offs() { std::vector<int> o{0}; for (int k = irand(1, 3); k > 0; --k) o.push_back(o.back() + irand(0, 3)); return o; }
static void gen(BlockVector<double>*& p, void* mem) { auto o = offs(); p = new (mem) BlockVector<double>(vect(vals(o.back())), o); }
static void gen(BlockMatrix<double>*& p, void* mem)
{
    auto r = offs(), c = offs();
    p = new (mem) BlockMatrix<double>(r, c);
    for (size_t i = 0; i + 1 < r.size(); ++i) for (size_t j = 0; j + 1 < c.size(); ++j) if (coin(1, 2)) p->SetBlock(i, j, mk(csr(r[i + 1] - r[i], c[j + 1] - c[j])));
}
static void change(Vector<double>& v) { for (double& x : v) x += 1; v.SetSize(v.size() + 1); }
static void change(Vector<int>& v) { for (int& x : v) x += 1; }
static void change(DenseMatrix& m) { for (int k = 0; k < m.Rows() * m.Cols(); ++k) m.GetData()[k] += 1; m.SetSize(m.Rows() + 1, m.Cols()); }
static void change(SparseMatrix<double>& m) { for (auto& x : m.GetData()) x += 1; for (auto& x : m.GetIndices()) x += 1; for (auto& x : m.GetIndptr()) x += 1; }
static void change(CooMatrix<double>& m) { m.Add(0, 0, 3.0); m.Add(0, 0, 1.0); m.EliminateZeros(2.0); }
static void change(LilMatrix<double>& m) { m.Add(0, 0, 3.0); }
static void change(BlockVector<double>& m) { for (double& x : m) x += 1; }
static void change(BlockMatrix<double>& m)
{
    for (size_t i = 0; i + 1 < m.GetRowOffsets().size(); ++i) for (size_t j = 0; j + 1 < m.GetColOffsets().size(); ++j)
        m.SetBlock(i, j, mk(csr(m.GetRowOffsets()[i + 1] - m.GetRowOffsets()[i], m.GetColOffsets()[j + 1] - m.GetColOffsets()[j])));
}
template <typename C> struct Box
{
    alignas(16) char mem[sizeof(C)]; C* p;
    Box() { memset(mem, 0xAA, sizeof mem); gen(p, mem); }
    ~Box() { p->~C(); }
    C& operator*() { return *p; }
};
template <typename C> struct Raw           // dirty storage
{
    alignas(16) char mem[sizeof(C)]; C* p = nullptr;
    Raw() { memset(mem, 0xAA, sizeof mem); }
    ~Raw() { if (p) p->~C(); }
};
template <typename C, typename N> static void semantics_(N name)
{
    Box<C> a, b;
    begin(name(), "", true);
    std::string sa = S(*a), sb = S(*b);
    also("a=" + sa + " b=" + sb);
    static std::string nm; 
    auto o = [&](const char* s) { nm = std::string(name()) + " " + s; op(nm.c_str()); };
    o("copy construction");
    { Raw<C> r; r.p = new (r.mem) C(*a); check(S(*r.p) == sa, "copy = " + S(*r.p)); change(*r.p); check(S(*a) == sa, "changing the copy changed the source to " + S(*a)); }
    { Raw<C> r; Box<C> q; std::string sq = S(*q); r.p = new (r.mem) C(*q); change(*q); check(S(*r.p) == sq, "changing the source changed the copy to " + S(*r.p)); }
    o("copy assignment");
    { Raw<C> r; r.p = new (r.mem) C(*b); *r.p = *a; check(S(*r.p) == sa, "assigned = " + S(*r.p)); change(*r.p); check(S(*a) == sa, "changing the target changed the source"); }
    o("self-assignment");
    { C t(*a); const C& u = t; t = u; check(S(t) == sa, "value = " + S(t)); }
    o("move construction");
    { C t(*a); Raw<C> r; r.p = new (r.mem) C(std::move(t)); check(S(*r.p) == sa, "moved = " + S(*r.p));
      Raw<C> r2; r2.p = new (r2.mem) C(t); t = *b; check(S(t) == sb, "reassigned moved-from object = " + S(t)); change(t); check(S(*r.p) == sa, "moved-to object shares storage"); }
    o("move assignment");
    { C t(*a), u(*b); u = std::move(t); check(S(u) == sa, "moved = " + S(u)); t = *b; check(S(t) == sb && S(u) == sa, "after reuse"); }
    o("swap");
    { C t(*a), u(*b); swap(t, u); check(S(t) == sb && S(u) == sa, "swapped: " + S(t) + " / " + S(u)); swap(t, t); check(S(t) == sb, "self-swap"); change(t); check(S(u) == sa, "shared storage"); }
    o("std::vector storage");
    { std::vector<C> v; for (int k = 0; k < 5; ++k) v.push_back(k % 2 ? *a : *b); for (int k = 0; k < 5; ++k) check(S(v[k]) == (k % 2 ? sa : sb), "element " + str(k)); v.erase(v.begin()); check(S(v[0]) == sa, "after erase"); }
    o("default construction");
    { Raw<C> r; r.p = new (r.mem) C(); C t(*r.p); *r.p = *a; check(S(*r.p) == sa, "assigned to default object"); }
    o("operands"); check(S(*a) == sa && S(*b) == sb, "changed");
}
#define T(C, N) static void N() { semantics_<C>([] { return #C; }); }
T(Vector<double>, f1) T(Vector<int>, f2) T(DenseMatrix, f3) T(SparseMatrix<double>, f4) T(CooMatrix<double>, f5) T(LilMatrix<double>, f6) T(BlockVector<double>, f7) T(BlockMatrix<double>, f8)
int main(int c, char** v) { return run(c, v, {f1, f2, f3, f4, f5, f6, f7, f8}); }
