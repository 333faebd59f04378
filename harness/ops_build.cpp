// Coordinate and list-of-lists builders; block matrices, operators and vectors; operators through the base class.
#include "core_kinds.hpp"

// ------------------------------------------------------------------ builders
OPT("coo.new")
{
    const std::string& f = S(a, "form");
    if (f == "auto") { P(a, "z", CooMatrix<T>()); }
    else if (f == "sq") { P(a, "z", CooMatrix<T>(I(a, "r"))); }
    else { P(a, "z", CooMatrix<T>(I(a, "r"), I(a, "c"))); }
    NONE;
}
OPT("lil.new")
{
    const std::string& f = S(a, "form");
    if (f == "auto") { P(a, "z", LilMatrix<T>()); }
    else if (f == "sq") { P(a, "z", LilMatrix<T>(I(a, "r"))); }
    else { P(a, "z", LilMatrix<T>(I(a, "r"), I(a, "c"))); }
    NONE;
}
template <class X> static J b_acc(const X& A, const J& a)
{
    if (S(a, "form") == "rows") { return J(A.Rows()); }
    return J(A.Cols());
}
OPT("coo.acc") { return b_acc(G<CooMatrix<T>>(a, "A"), a); }
OPT("lil.acc") { return b_acc(G<LilMatrix<T>>(a, "A"), a); }
OPT("coo.setsize") { G<CooMatrix<T>>(a, "A").SetSize(I(a, "r"), I(a, "c")); NONE; }
OPT("lil.setsize") { G<LilMatrix<T>>(a, "A").SetSize(I(a, "r"), I(a, "c")); NONE; }
OPT("coo.reserve") { G<CooMatrix<T>>(a, "A").Reserve(I(a, "n")); NONE; }
OPT("coo.add")
{
    CooMatrix<T>& A = G<CooMatrix<T>>(a, "A");
    const std::string& f = S(a, "form");
    if (f == "one") { A.Add(I(a, "i"), I(a, "j"), NT<T>(a, "val")); }
    else if (f == "sym") { A.AddSym(I(a, "i"), I(a, "j"), NT<T>(a, "val")); }
    else if (f == "blk1") { A.Add(IV(a, "rows"), G<DenseMatrix>(a, "B")); }
    else if (f == "blk2") { A.Add(IV(a, "rows"), IV(a, "cols"), G<DenseMatrix>(a, "B")); }
    else if (f == "sblk1") { A.Add(IV(a, "rows"), NT<T>(a, "s"), G<DenseMatrix>(a, "B")); }
    else if (f == "sblk2") { A.Add(IV(a, "rows"), IV(a, "cols"), NT<T>(a, "s"), G<DenseMatrix>(a, "B")); }
    else if (f == "colv") { A.Add(IV(a, "rows"), I(a, "j"), CV<T>(a, "x")); }
    else if (f == "rowv") { A.Add(I(a, "i"), IV(a, "cols"), CV<T>(a, "x")); }
    else if (f == "scolv") { A.Add(IV(a, "rows"), I(a, "j"), NT<T>(a, "s"), CV<T>(a, "x")); }
    else if (f == "srowv") { A.Add(I(a, "i"), IV(a, "cols"), NT<T>(a, "s"), CV<T>(a, "x")); }
    else if (f == "list") { A.Add(IV(a, "rows"), IV(a, "cols"), NV<T>(a, "v")); }
    else if (f == "slist") { A.Add(IV(a, "rows"), IV(a, "cols"), NT<T>(a, "s"), NV<T>(a, "v")); }
    else if (f == "listv") { A.Add(IV(a, "rows"), IV(a, "cols"), CV<T>(a, "x")); }
    else if (f == "slistv") { A.Add(IV(a, "rows"), IV(a, "cols"), NT<T>(a, "s"), CV<T>(a, "x")); }
    else { throw std::logic_error("script: coo.add"); }
    NONE;
}
OPT("lil.add")
{
    LilMatrix<T>& A = G<LilMatrix<T>>(a, "A");
    const std::string& f = S(a, "form");
    if (f == "one") { A.Add(I(a, "i"), I(a, "j"), NT<T>(a, "val")); }
    else if (f == "sym") { A.AddSym(I(a, "i"), I(a, "j"), NT<T>(a, "val")); }
    else if (f == "blk1") { A.Add(IV(a, "rows"), G<DenseMatrix>(a, "B")); }
    else { A.Add(IV(a, "rows"), IV(a, "cols"), G<DenseMatrix>(a, "B")); }
    NONE;
}
template <class T, template <class> class X> static void tosparse(const J& a)
{
    const X<T>& A = G<X<T>>(a, "A");
    const std::string& u = S(a, "u");
    if (u == "") { P(a, "z", A.ToSparse()); }
    else if (u == "i") { P(a, "z", A.template ToSparse<int>()); }
    else { P(a, "z", A.template ToSparse<double>()); }
}
OPT("coo.tosparse") { tosparse<T, CooMatrix>(a); NONE; }
OPT("lil.tosparse") { tosparse<T, LilMatrix>(a); NONE; }
template <class X> static void todense(const X& A, const J& a)
{
    if (S(a, "form") == "out") { A.ToDense(G<DenseMatrix>(a, "z")); }
    else { P(a, "z", A.ToDense()); }
}
OPT("coo.todense") { todense(G<CooMatrix<T>>(a, "A"), a); NONE; }
OPT("lil.todense") { todense(G<LilMatrix<T>>(a, "A"), a); NONE; }
OPT("coo.perm")
{
    CooMatrix<T>& A = G<CooMatrix<T>>(a, "A");
    const std::string& f = S(a, "form");
    if (f == "rows") { A.PermuteRows(IV(a, "rows")); }
    else if (f == "cols") { A.PermuteCols(IV(a, "cols")); }
    else { A.PermuteRowsCols(IV(a, "rows"), IV(a, "cols")); }
    NONE;
}
template <class X> static void elimzeros(X& A, const J& a) { if (a.has("tol")) { A.EliminateZeros(N(a, "tol")); } else { A.EliminateZeros(); } }
OPT("coo.elimzeros") { elimzeros(G<CooMatrix<T>>(a, "A"), a); NONE; }
OPT("lil.elimzeros") { elimzeros(G<LilMatrix<T>>(a, "A"), a); NONE; }

// ------------------------------------------------------------------ block vectors
OPT("bv.new")
{
    const std::string& f = S(a, "form");
    if (f == "default") { P(a, "z", BlockVector<T>()); }
    else if (f == "off") { P(a, "z", BlockVector<T>(IV(a, "off"))); }
    else if (f == "val") { P(a, "z", BlockVector<T>(IV(a, "off"), NT<T>(a, "val"))); }
    else { P(a, "z", BlockVector<T>(CV<T>(a, "x"), IV(a, "off"))); }
    NONE;
}
OPT("bv.offsets") { const BlockVector<T>& x = G<BlockVector<T>>(a, "x"); return ints(x.GetOffsets()); }
OPT("bv.block")
{
    if (S(a, "form") == "const") { const BlockVector<T>& x = G<BlockVector<T>>(a, "x"); P(a, "z", VectorView<T>(x.GetBlock(I(a, "i")))); }
    else { P(a, "z", VectorView<T>(G<BlockVector<T>>(a, "x").GetBlock(I(a, "i")))); }
    NONE;
}
OPT("bv.read")
{
    const BlockVector<T>& x = G<BlockVector<T>>(a, "x");
    const VectorView<T> b = x.GetBlock(I(a, "i"));
    return scs(std::vector<T>(b.begin(), b.end()));
}
OPT("bv.set") { G<BlockVector<T>>(a, "x") = NT<T>(a, "val"); NONE; }
OPT("bv.setview") { G<BlockVector<T>>(a, "x") = CV<T>(a, "y"); NONE; }

// ------------------------------------------------------------------ block matrices
OPT("bm.new")
{
    const std::string& f = S(a, "form");
    if (f == "default") { P(a, "z", BlockMatrix<T>()); }
    else if (f == "sq") { P(a, "z", BlockMatrix<T>(IV(a, "ro"))); }
    else { P(a, "z", BlockMatrix<T>(IV(a, "ro"), IV(a, "co"))); }
    NONE;
}
OPT("bm.acc")
{
    const BlockMatrix<T>& A = G<BlockMatrix<T>>(a, "A");
    const std::string& f = S(a, "form");
    if (f == "rows") { return J(A.Rows()); }
    if (f == "cols") { return J(A.Cols()); }
    if (f == "ro") { return ints(A.GetRowOffsets()); }
    return ints(A.GetColOffsets());
}
OPT("bm.setblock")
{
    SparseMatrix<T>& m = G<SparseMatrix<T>>(a, "B");
    if (S(a, "form") == "move") { SparseMatrix<T> tmp(m); G<BlockMatrix<T>>(a, "A").SetBlock(I(a, "i"), I(a, "j"), std::move(tmp)); }
    else { G<BlockMatrix<T>>(a, "A").SetBlock(I(a, "i"), I(a, "j"), m); }
    NONE;
}
OPT("bm.getblock") { const BlockMatrix<T>& A = G<BlockMatrix<T>>(a, "A"); P(a, "z", SparseMatrix<T>(A.GetBlock(I(a, "i"), I(a, "j")))); NONE; }
OPT("bm.transpose") { P(a, "z", G<BlockMatrix<T>>(a, "A").Transpose()); NONE; }
OPT("bm.combine") { P(a, "z", G<BlockMatrix<T>>(a, "A").Combine()); NONE; }

// ------------------------------------------------------------------ block operators
static Operator& opr(const J& a, const char* k)
{
    Operator* p = O(a, k).oper();
    if (!p) { throw std::logic_error(std::string("script: not an operator: ") + k); }
    return *p;
}
OP("bo.new")
{
    const std::string& f = S(a, "form");
    if (f == "default") { P(a, "z", BlockOperator()); }
    else if (f == "sq") { P(a, "z", BlockOperator(IV(a, "ro"))); }
    else { P(a, "z", BlockOperator(IV(a, "ro"), IV(a, "co"))); }
    NONE;
}
OP("bo.acc")
{
    const BlockOperator& A = G<BlockOperator>(a, "A");
    const std::string& f = S(a, "form");
    if (f == "rows") { return J(A.Rows()); }
    if (f == "cols") { return J(A.Cols()); }
    if (f == "ro") { return ints(A.GetRowOffsets()); }
    return ints(A.GetColOffsets());
}
OP("bo.setblock") { G<BlockOperator>(a, "A").SetBlock(I(a, "i"), I(a, "j"), opr(a, "B")); NONE; }
OP("bo.getblock") { const BlockOperator& A = G<BlockOperator>(a, "A"); return J(slot_of(A.GetBlock(I(a, "i"), I(a, "j")))); }

// ------------------------------------------------------------------ any operator, through the base class
OP("op.size") { const Operator& A = opr(a, "A"); J r = J::arr(); r.push(J(A.Rows())); r.push(J(A.Cols())); return r; }
OP("op.apply")
{
    const Operator& A = opr(a, "A");
    const VectorView<double>& x = CV<double>(a, "x");
    const std::string& f = S(a, "form");
    const bool tr = B(a, "tr");
    if (f == "ret") { P(a, "z", tr ? A.MultAT(x) : A.Mult(x)); }
    else if (f == "resize")
    {
        Vector<double>& z = G<Vector<double>>(a, "z");
        if (tr) { A.MultAT(x, z); } else { A.Mult(x, z); }
    }
    else
    {
        VectorView<double> z(VV<double>(a, "z"));
        if (tr) { A.MultAT(x, z); } else { A.Mult(x, z); }
    }
    NONE;
}
OP("op.inner") { return sc(opr(a, "A").InnerProduct(CV<double>(a, "x"), CV<double>(a, "y"))); }
