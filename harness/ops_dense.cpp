// Dense matrices.
#include "core.hpp"

static DenseMatrix& D(const J& a, const char* k) { return G<DenseMatrix>(a, k); }
// calls with an output argument use slot z; otherwise z receives the returned matrix
#define OUT (S(a, "form").size() > 4 && S(a, "form").compare(S(a, "form").size() - 4, 4, "-out") == 0)
static std::string base(const J& a)
{
    std::string f = S(a, "form");
    return OUT ? f.substr(0, f.size() - 4) : f;
}

OP("dn.new")
{
    const std::string& f = S(a, "form");
    if (f == "default") { P(a, "z", DenseMatrix()); }
    else if (f == "size") { DenseMatrix z(I(a, "r")); z = 0.0; P(a, "z", std::move(z)); }
    else if (f == "rc") { P(a, "z", DenseMatrix(I(a, "r"), I(a, "c"))); }
    else { P(a, "z", DenseMatrix(I(a, "r"), I(a, "c"), NV<double>(a, "v"))); }
    NONE;
}
OP("dn.acc")
{
    const DenseMatrix& A = D(a, "A");
    const std::string& f = S(a, "form");
    if (f == "rows") { return J(A.Rows()); }
    if (f == "cols") { return J(A.Cols()); }
    if (f == "sum") { return sc(A.Sum()); }
    if (f == "max") { return sc(A.Max()); }
    if (f == "min") { return sc(A.Min()); }
    if (f == "diag") { return scs(A.GetDiag()); }
    if (f == "diag-out") { std::vector<double> d(A.Rows(), 77.0); A.GetDiag(d); return scs(d); }
    if (f == "copydata") { std::vector<double> d(I(a, "n"), 77.0); A.CopyData(d); return scs(d); }
    if (f == "data") { return scs(std::vector<double>(A.GetData(), A.GetData() + A.Rows() * A.Cols())); }
    if (f == "at") { return sc(D(a, "A")(I(a, "i"), I(a, "j"))); }
    if (f == "cat") { return sc(A(I(a, "i"), I(a, "j"))); }
    throw std::logic_error("script: dn.acc " + f);
}
OP("dn.put")
{
    DenseMatrix& A = D(a, "A");
    if (S(a, "form") == "raw") { A.GetData()[I(a, "j") * A.Rows() + I(a, "i")] = N(a, "val"); }
    else { A(I(a, "i"), I(a, "j")) = N(a, "val"); }
    NONE;
}
OP("dn.setsize")
{
    DenseMatrix& A = D(a, "A");
    const std::string& f = S(a, "form");
    if (f == "sq") { A.SetSize(I(a, "r")); }
    else if (f == "rc") { A.SetSize(I(a, "r"), I(a, "c")); }
    else if (f == "sqv") { A.SetSize(I(a, "r"), N(a, "val")); }
    else { A.SetSize(I(a, "r"), I(a, "c"), N(a, "val")); }
    NONE;
}
OP("dn.colview")
{
    if (S(a, "form") == "const") { const DenseMatrix& A = D(a, "A"); P(a, "z", VectorView<double>(A.GetColView(I(a, "j")))); }
    else { P(a, "z", D(a, "A").GetColView(I(a, "j"))); }
    NONE;
}
// ------------------------------------------------------------------ arithmetic
template <class T, class U> static void dmulv(const DenseMatrix& A, const J& a)
{
    if (B(a, "tr")) { A.MultAT<T, U>(CV<T>(a, "x"), VectorView<U>(VV<U>(a, "z"))); }
    else { A.Mult<T, U>(CV<T>(a, "x"), VectorView<U>(VV<U>(a, "z"))); }
}
OP("dn.mulv")
{
    const DenseMatrix& A = D(a, "A");
    const bool xi = S(a, "u") == "i", zi = S(a, "v") == "i", tr = B(a, "tr");
    if (S(a, "form") == "view")
    {
        if (xi) { if (zi) { dmulv<int, int>(A, a); } else { dmulv<int, double>(A, a); } }
        else if (zi) { dmulv<double, int>(A, a); }
        else { dmulv<double, double>(A, a); }
    }
    else if (xi) { P(a, "z", tr ? A.MultAT<int>(CV<int>(a, "x")) : A.Mult<int>(CV<int>(a, "x"))); }
    else if (S(a, "form") == "tmpl") { P(a, "z", tr ? A.MultAT<double>(CV<double>(a, "x")) : A.Mult<double>(CV<double>(a, "x"))); }
    else { P(a, "z", tr ? A.MultAT(CV<double>(a, "x")) : A.Mult(CV<double>(a, "x"))); }
    NONE;
}
OP("dn.mul")
{
    const DenseMatrix& A = D(a, "A");
    const DenseMatrix& X = D(a, "B");
    const std::string f = base(a);
    if (OUT)
    {
        DenseMatrix& z = D(a, "z");
        if (f == "ab") { A.Mult(X, z); }
        else if (f == "atb") { A.MultAT(X, z); }
        else if (f == "abt") { A.MultBT(X, z); }
        else { A.MultABT(X, z); }
    }
    else if (f == "ab") { P(a, "z", A.Mult(X)); }
    else if (f == "atb") { P(a, "z", A.MultAT(X)); }
    else if (f == "abt") { P(a, "z", A.MultBT(X)); }
    else { P(a, "z", A.MultABT(X)); }
    NONE;
}
OP("dn.transpose")
{
    if (OUT) { D(a, "A").Transpose(D(a, "z")); }
    else { P(a, "z", D(a, "A").Transpose()); }
    NONE;
}
OP("dn.iarith")
{
    DenseMatrix& A = D(a, "A");
    if (S(a, "form") == "add") { return J(&(A += D(a, "B")) == &A); }
    return J(&(A -= D(a, "B")) == &A);
}
OP("dn.sca")
{
    DenseMatrix& A = D(a, "A");
    const std::string& f = S(a, "form");
    if (f == "mul") { return J(&(A *= N(a, "val")) == &A); }
    if (f == "div") { return J(&(A /= N(a, "val")) == &A); }
    return J(&(A = N(a, "val")) == &A);
}
OP("dn.expr")
{
    const DenseMatrix& A = D(a, "A");
    const std::string& f = S(a, "form");
    if (f == "add") { P(a, "z", A + D(a, "B")); }
    else if (f == "sub") { P(a, "z", A - D(a, "B")); }
    else if (f == "xv") { P(a, "z", A * N(a, "val")); }
    else if (f == "vx") { P(a, "z", N(a, "val") * A); }
    else { P(a, "z", A / N(a, "val")); }
    NONE;
}
OP("dn.eq") { const DenseMatrix& A = D(a, "A"); return J(A == D(a, "B")); }
OP("dn.eqpert")                                        // equality with one entry moved by 10^e
{
    const DenseMatrix& A = D(a, "A");
    DenseMatrix X(A);
    X(I(a, "i"), I(a, "j")) += std::pow(10.0, I(a, "e")) * (B(a, "neg") ? -1 : 1);
    return J(A == X);
}
OP("dn.scale")
{
    DenseMatrix& A = D(a, "A");
    const std::string& f = S(a, "form");
    const std::string& u = S(a, "u");
    std::vector<double> d = NV<double>(a, "x");
    std::vector<int> di(d.begin(), d.end());
    Vector<double> dv(d);
#define SCALE(x) do { if (f == "rows") { A.ScaleRows(x); } else if (f == "cols") { A.ScaleCols(x); } \
        else if (f == "irows") { A.InverseScaleRows(x); } else { A.InverseScaleCols(x); } } while (0)
    if (u == "std") { SCALE(d); }
    else if (u == "int") { SCALE(di); }
    else if (u == "vec") { SCALE(dv); }
    else { VectorView<double> w(dv); SCALE(w); }
    NONE;
}
// ------------------------------------------------------------------ rows, columns, blocks
template <class T> static void line_get(const J& a, bool row)
{
    const DenseMatrix& A = D(a, "A");
    const int i = I(a, "i");
    const std::string& f = S(a, "form");
    if (f == "ret") { P(a, "z", row ? A.GetRow<T>(i) : A.GetCol<T>(i)); return; }
    VectorView<T>& z = VV<T>(a, "z");
    if (row) { A.GetRow<T>(i, z); } else { A.GetCol<T>(i, z); }
}
OP("dn.getrow") { if (S(a, "t") == "i") { line_get<int>(a, true); } else { line_get<double>(a, true); } NONE; }
OP("dn.getcol")
{
    if (S(a, "form") == "mut") { D(a, "A").GetCol(I(a, "i"), VV<double>(a, "z")); }
    else if (S(a, "t") == "i") { line_get<int>(a, false); }
    else { line_get<double>(a, false); }
    NONE;
}
OPT("dn.setrow") { D(a, "A").SetRow<T>(I(a, "i"), CV<T>(a, "x")); NONE; }
OPT("dn.setcol") { D(a, "A").SetCol<T>(I(a, "i"), CV<T>(a, "x")); NONE; }

OP("dn.get")                                            // block reads
{
    const DenseMatrix& A = D(a, "A");
    const std::string f = base(a);
    if (OUT)
    {
        DenseMatrix& z = D(a, "z");
        if (f == "rows") { A.GetRow(I(a, "i0"), I(a, "i1"), z); }
        else if (f == "rowlist") { A.GetRow(IV(a, "rows"), z); }
        else if (f == "cols") { A.GetCol(I(a, "j0"), I(a, "j1"), z); }
        else if (f == "range") { A.GetSubMatrix(I(a, "i0"), I(a, "j0"), I(a, "i1"), I(a, "j1"), z); }
        else { A.GetSubMatrix(IV(a, "rows"), IV(a, "cols"), z); }
    }
    else if (f == "rows") { P(a, "z", A.GetRow(I(a, "i0"), I(a, "i1"))); }
    else if (f == "rowlist") { P(a, "z", A.GetRow(IV(a, "rows"))); }
    else if (f == "cols") { P(a, "z", A.GetCol(I(a, "j0"), I(a, "j1"))); }
    else if (f == "range") { P(a, "z", A.GetSubMatrix(I(a, "i0"), I(a, "j0"), I(a, "i1"), I(a, "j1"))); }
    else { P(a, "z", A.GetSubMatrix(IV(a, "rows"), IV(a, "cols"))); }
    NONE;
}
OP("dn.set")                                            // block writes
{
    DenseMatrix& A = D(a, "A");
    const DenseMatrix& X = D(a, "B");
    const std::string& f = S(a, "form");
    if (f == "rows") { A.SetRow(I(a, "i0"), X); }
    else if (f == "cols") { A.SetCol(I(a, "j0"), X); }
    else if (f == "sub") { A.SetSubMatrix(I(a, "i0"), I(a, "j0"), X); }
    else if (f == "sub5") { A.SetSubMatrix(I(a, "i0"), I(a, "j0"), I(a, "i1"), I(a, "j1"), X); }
    else if (f == "subt") { A.SetSubMatrixTranspose(I(a, "i0"), I(a, "j0"), X); }
    else if (f == "subt5") { A.SetSubMatrixTranspose(I(a, "i0"), I(a, "j0"), I(a, "i1"), I(a, "j1"), X); }
    else { std::vector<int> c = IV(a, "cols"); A.AddSubMatrix(IV(a, "rows"), c, X); return ints(c); }
    NONE;
}
OP("dn.hstack")
{
    std::vector<DenseMatrix> v;
    for (const auto& s : a["list"].a)
    {
        auto* p = dynamic_cast<Hold<DenseMatrix>*>(&env->obj(s.s));
        v.push_back(p->v);
    }
    if (OUT) { HStack(v, D(a, "z")); }
    else { P(a, "z", HStack(v)); }
    NONE;
}
