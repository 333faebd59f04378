// Sparse matrices in compressed rows.
#include "core.hpp"

template <class T> SparseMatrix<T>& M(const J& a, const char* k) { return G<SparseMatrix<T>>(a, k); }
static bool is_i(const J& a, const char* k) { return S(a, k) == "i"; }
// calls f<T,U>() for the element types named by arguments t and u
#define TU(f) (is_i(a, "t") ? (is_i(a, "u") ? f<int, int>(a) : f<int, double>(a)) : (is_i(a, "u") ? f<double, int>(a) : f<double, double>(a)))

OPT("sp.new")
{
    const std::string& f = S(a, "form");
    if (f == "default") { P(a, "z", SparseMatrix<T>()); }
    else if (f == "size") { P(a, "z", SparseMatrix<T>(I(a, "r"))); }
    else if (f == "empty") { P(a, "z", SparseMatrix<T>(I(a, "r"), I(a, "c"))); }
    else if (f == "diag") { P(a, "z", SparseMatrix<T>(NV<T>(a, "x"))); }
    else { P(a, "z", SparseMatrix<T>(IV(a, "p"), IV(a, "j"), NV<T>(a, "x"), I(a, "r"), I(a, "c"))); }
    NONE;
}
OPT("sp.acc")
{
    const SparseMatrix<T>& A = M<T>(a, "A");
    const std::string& f = S(a, "form");
    if (f == "rows") { return J(A.Rows()); }
    if (f == "cols") { return J(A.Cols()); }
    if (f == "nnz") { return J(A.nnz()); }
    if (f == "indptr") { return ints(A.GetIndptr()); }
    if (f == "indices") { return ints(A.GetIndices()); }
    if (f == "data") { return scs(A.GetData()); }
    if (f == "mindptr") { return ints(M<T>(a, "A").GetIndptr()); }
    if (f == "mindices") { return ints(M<T>(a, "A").GetIndices()); }
    if (f == "mdata") { return scs(M<T>(a, "A").GetData()); }
    if (f == "rowidx") { return ints(A.GetIndices(I(a, "i"))); }
    if (f == "rowdata") { return scs(A.GetData(I(a, "i"))); }
    if (f == "rowview") { const VectorView<int> v = A.GetIndicesView(I(a, "i")); return ints(std::vector<int>(v.begin(), v.end())); }
    if (f == "rowsize") { return J(A.RowSize(I(a, "i"))); }
    if (f == "diag") { return scs(A.GetDiag()); }
    if (f == "sum") { return sc(A.Sum()); }
    if (f == "maxnorm") { return sc(A.MaxNorm()); }
    throw std::logic_error("script: acc " + f);
}
OPT("sp.viewidx") { P(a, "z", VectorView<int>(M<T>(a, "A").GetIndicesView(I(a, "i")))); NONE; }
OPT("sp.setdata") { M<T>(a, "A").GetData().at(I(a, "i")) = NT<T>(a, "val"); NONE; }

OPT("sp.todense")
{
    const SparseMatrix<T>& A = M<T>(a, "A");
    const bool tr = B(a, "tr");
    if (S(a, "form") == "out") { DenseMatrix& z = G<DenseMatrix>(a, "z"); if (tr) { A.TransposeDense(z); } else { A.ToDense(z); } }
    else if (tr) { P(a, "z", A.TransposeDense()); }
    else { P(a, "z", A.ToDense()); }
    NONE;
}
OPT("sp.sort") { M<T>(a, "A").SortIndices(); NONE; }

// ------------------------------------------------------------------ products
template <class T, class U, class V> static void mulv_view(const J& a)
{
    const SparseMatrix<T>& A = M<T>(a, "A");
    if (B(a, "tr")) { A.template MultAT<U, V>(CV<U>(a, "x"), VectorView<V>(VV<V>(a, "z"))); }
    else { A.template Mult<U, V>(CV<U>(a, "x"), VectorView<V>(VV<V>(a, "z"))); }
}
template <class T, bool same> struct MulOp { static void go(const J& a, const SparseMatrix<T>& A) { P(a, "z", A * CV<T>(a, "x")); } };
template <class T> struct MulOp<T, false> { static void go(const J&, const SparseMatrix<T>&) { throw std::logic_error("script: mixed operator*"); } };
template <class T, class U> static J mulv(const J& a)
{
    const SparseMatrix<T>& A = M<T>(a, "A");
    const std::string& f = S(a, "form");
    const bool tr = B(a, "tr");
    if (f == "ret")
    {
        if (tr) { P(a, "z", A.template MultAT<U>(CV<U>(a, "x"))); }
        else { P(a, "z", A.template Mult<U>(CV<U>(a, "x"))); }
    }
    else if (f == "op") { MulOp<T, std::is_same<T, U>::value>::go(a, A); }
    else if (is_i(a, "v")) { mulv_view<T, U, int>(a); }
    else { mulv_view<T, U, double>(a); }
    NONE;
}
OP("sp.mulv") { return TU(mulv); }

OPT("sp.muld")
{
    const SparseMatrix<T>& A = M<T>(a, "A");
    const DenseMatrix& X = G<DenseMatrix>(a, "B");
    const std::string& f = S(a, "form");
    if (f == "mult") { P(a, "z", A.Mult(X)); }
    else if (f == "multat") { P(a, "z", A.MultAT(X)); }
    else if (f == "multct") { P(a, "z", A.MultCT(X)); }
    else if (f == "mult-out") { A.Mult(X, G<DenseMatrix>(a, "z")); }
    else if (f == "multat-out") { A.MultAT(X, G<DenseMatrix>(a, "z")); }
    else { A.MultCT(X, G<DenseMatrix>(a, "z")); }
    NONE;
}
template <class T, class U> static J mul(const J& a)
{
    const SparseMatrix<T>& A = M<T>(a, "A");
    const SparseMatrix<U>& X = M<U>(a, "B");
    if (S(a, "form") == "marker") { P(a, "z", A.template Mult<U>(X, G<std::vector<int>>(a, "w"))); }
    else { P(a, "z", A.template Mult<U>(X)); }
    NONE;
}
OP("sp.mul") { return TU(mul); }
template <class T, class U> static J transpose(const J& a) { P(a, "z", M<T>(a, "A").template Transpose<U>()); NONE; }
OP("sp.transpose") { return TU(transpose); }
OPT("sp.submat")
{
    const SparseMatrix<T>& A = M<T>(a, "A");
    if (S(a, "form") == "marker") { P(a, "z", A.GetSubMatrix(IV(a, "rows"), IV(a, "cols"), G<std::vector<int>>(a, "w"))); }
    else { P(a, "z", A.GetSubMatrix(IV(a, "rows"), IV(a, "cols"))); }
    NONE;
}

// ------------------------------------------------------------------ in-place edits
OPT("sp.adddiag")
{
    if (S(a, "form") == "val") { M<T>(a, "A").AddDiag(NT<T>(a, "val")); }
    else { M<T>(a, "A").AddDiag(NV<T>(a, "x")); }
    NONE;
}
template <class T, class U> static J sca(const J& a)
{
    SparseMatrix<T>& A = M<T>(a, "A");
    const U v = NT<U>(a, "val");
    const std::string& f = S(a, "form");
    if (f == "mul") { return J(&(A *= v) == &A); }
    if (f == "div") { return J(&(A /= v) == &A); }
    return J(&(A = v) == &A);
}
OP("sp.sca") { return TU(sca); }
template <class T, class U> static J expr(const J& a)
{
    const U v = NT<U>(a, "val");
    if (S(a, "form") == "xv") { P(a, "z", M<T>(a, "A") * v); }
    else { P(a, "z", v * M<T>(a, "A")); }
    NONE;
}
OP("sp.expr") { return TU(expr); }
OPT("sp.scale")
{
    SparseMatrix<T>& A = M<T>(a, "A");
    const std::string& f = S(a, "form");
    if (a.has("D"))
    {
        const SparseMatrix<T>& D = M<T>(a, "D");
        if (f == "rows") { A.ScaleRows(D); }
        else if (f == "cols") { A.ScaleCols(D); }
        else if (f == "irows") { A.InverseScaleRows(D); }
        else { A.InverseScaleCols(D); }
    }
    else
    {
        const std::vector<T> d = NV<T>(a, "x");
        if (f == "rows") { A.ScaleRows(d); }
        else if (f == "cols") { A.ScaleCols(d); }
        else if (f == "irows") { A.InverseScaleRows(d); }
        else { A.InverseScaleCols(d); }
    }
    NONE;
}
OPT("sp.permcols") { M<T>(a, "A").PermuteCols(IV(a, "perm")); NONE; }
OPT("sp.elim")
{
    SparseMatrix<T>& A = M<T>(a, "A");
    const std::string& f = S(a, "form");
    if (f == "rowcol") { A.EliminateRowCol(I(a, "i")); }
    else if (f == "row") { A.EliminateRow(I(a, "i")); }
    else if (f == "col") { A.EliminateCol(I(a, "i")); }
    else
    {
        const std::vector<int> m = IV(a, "mask");
        const std::vector<bool> b(m.begin(), m.end());
        const bool asb = B(a, "bool");
        if (f == "rowcolm") { if (asb) { A.EliminateRowCol(b); } else { A.EliminateRowCol(m); } }
        else if (f == "colm") { if (asb) { A.EliminateCol(b); } else { A.EliminateCol(m); } }
        else
        {
            const VectorView<double>& x = CV<double>(a, "x");
            VectorView<double> rhs(VV<double>(a, "b"));
            if (asb) { A.EliminateCol(b, x, std::move(rhs)); } else { A.EliminateCol(m, x, std::move(rhs)); }
        }
    }
    NONE;
}
OPT("sp.elimzeros")
{
    // sc: with every entry (and the tolerance) multiplied by 2^sc meanwhile
    SparseMatrix<T>& A = M<T>(a, "A");
    const int sc = a.has("sc") ? (int)a["sc"].i : 0;
    if (sc) { for (T& v : A.GetData()) { v = (T)std::ldexp((double)v, sc); } }
    if (a.has("tol")) { A.EliminateZeros(std::ldexp((double)NT<T>(a, "tol"), sc)); }
    else { A.EliminateZeros(); }
    if (sc) { for (T& v : A.GetData()) { v = (T)std::ldexp((double)v, -sc); } }
    NONE;
}
