// Factorizations, eigensolver, iterative solvers, sparse direct solver.
// Results are approximate: they are logged in fixed point (1e-4) or, where the exact answer lies on the episode's grid,
// rounded to it; the object is then given exact contents.
#include "core_kinds.hpp"
#include "sparsesolve.hpp"

static J fx(double v)
{
    if (std::isnan(v)) { return J((long long)S_NAN); }
    const double w = std::floor(v * 1e4 + 0.5);
    if (!(std::fabs(w) < 1.9e9)) { return J((long long)S_BIG); }
    return J((long long)w);
}
template <class V> static J fxs(const V& v) { J r = J::arr(); for (double x : v) { r.push(fx(x)); } return r; }
static J fxd(const DenseMatrix& m) { std::vector<double> d; m.CopyData(d); return fxs(d); }
static void shift(double* p, size_t n, long long sc) { for (size_t i = 0; i < n && sc; ++i) { p[i] = std::ldexp(p[i], (int)sc); } }
static void shift(DenseMatrix& m, long long sc) { shift(m.GetData(), (size_t)m.Rows() * m.Cols(), sc); }
// runs f with every entry of A multiplied by 2^sc (exactly); A gets its entries back unless it holds the result
template <class F> static void scaled(DenseMatrix& A, long long sc, bool keep, F f) { shift(A, sc); f(); if (keep) { shift(A, -sc); } }
static long long SC(const J& a) { return a.has("sc") ? a["sc"].i : 0; }
static void zero(DenseMatrix& m) { m = DenseMatrix(m.Rows(), m.Cols(), std::vector<double>((size_t)m.Rows() * m.Cols(), 0.0)); }
static void snap(double* p, int n, double tol = 1e-5)
{
    for (int i = 0; i < n; ++i)
    {
        const double w = p[i] * env->F, q = std::floor(w + 0.5);
        if (std::fabs(w - q) < tol * std::max(1.0, std::fabs(w) * 1e-2)) { p[i] = q / env->F; }
    }
}

OP("dn.inv")
{
    DenseMatrix& A = G<DenseMatrix>(a, "A");
    const bool out = S(a, "form") == "out";
    DenseMatrix& T = out ? G<DenseMatrix>(a, "z") : A;
    scaled(A, SC(a), out, [&] { if (out) { static_cast<const DenseMatrix&>(A).Invert(T); } else { A.Invert(); } });
    shift(T, SC(a));
    J r = fxd(T);
    zero(T);
    return r;
}
OP("dn.qr")
{
    DenseMatrix& A = G<DenseMatrix>(a, "A");
    const bool out = S(a, "form") == "out";
    DenseMatrix& T = out ? G<DenseMatrix>(a, "z") : A;
    scaled(A, SC(a), out, [&] { if (out) { static_cast<const DenseMatrix&>(A).QR(T); } else { A.QR(); } });
    J r = fxd(T);
    zero(T);
    return r;
}
OP("dn.svd")
{
    DenseMatrix& A = G<DenseMatrix>(a, "A");
    const bool out = S(a, "form") == "out";
    DenseMatrix& T = out ? G<DenseMatrix>(a, "z") : A;
    std::vector<double> s;
    scaled(A, SC(a), out, [&] { s = out ? static_cast<const DenseMatrix&>(A).SVD(T) : A.SVD(); });
    shift(s.data(), s.size(), -SC(a));
    J r = J::arr();
    r.push(fxs(s));
    r.push(fxd(T));
    zero(T);
    return r;
}

// ------------------------------------------------------------------ eigensolver
template <> struct Traits<EigenSolver>
{
    TRAITS_COMMON
    static const char* kind() { return "eig"; }
    static J proj(EigenSolver&) { return J::obj().set("k", "eig"); }
};
template <> struct Traits<EigenPair>
{
    TRAITS_COMMON
    static const char* kind() { return "pair"; }
    static J proj(EigenPair& p)
    {
        return J::obj().set("k", "pair").set("n", J((int)p.first.size())).set("r", J(p.second.Rows())).set("c", J(p.second.Cols()));
    }
};
OP("eig.new") { P(a, "z", EigenSolver()); NONE; }
OP("eig.newpair") { P(a, "z", EigenPair()); NONE; }
OP("eig.solve")
{
    EigenSolver& E = G<EigenSolver>(a, "E");
    const double rel = (double)a["rel"].i / 8.0;
    const int mx = I(a, "max");
    const Obj& o = O(a, "A");
    const bool sp = std::string(o.kind()) == "sp";
    const auto scale = [&](long long sc)
    {
        if (sp) { auto& d = G<SparseMatrix<double>>(a, "A").GetData(); shift(d.data(), d.size(), sc); }
        else { shift(G<DenseMatrix>(a, "A"), sc); }
    };
    scale(SC(a));
    if (S(a, "form") == "ret")
    {
        if (sp) { P(a, "z", E.Solve(G<SparseMatrix<double>>(a, "A"), rel, mx)); }
        else { P(a, "z", E.Solve(G<DenseMatrix>(a, "A"), rel, mx)); }
    }
    else
    {
        EigenPair& z = G<EigenPair>(a, "z");
        if (sp) { E.Solve(G<SparseMatrix<double>>(a, "A"), rel, mx, z); }
        else { E.Solve(G<DenseMatrix>(a, "A"), rel, mx, z); }
    }
    scale(-SC(a));
    EigenPair& z = G<EigenPair>(a, "z");
    shift(z.first.data(), z.first.size(), -SC(a));
    J r = J::arr();
    r.push(fxs(z.first));
    r.push(fxd(z.second));
    return r;
}

// ------------------------------------------------------------------ iterative solvers
template <class X> static J it_proj(const char* ty, const X& s)
{
    J r = J::obj();
    r.set("k", "it"); r.set("ty", ty); r.set("r", s.Rows()); r.set("c", s.Cols());
    r.set("A", J(slot_of(s.GetOperator()))); r.set("it", s.GetNumIterations());
    return r;
}
#define IT_TRAITS(X, name) template <> struct Traits<X> { TRAITS_COMMON static const char* kind() { return "it"; } static J proj(X& s) { return it_proj(name, s); } };
IT_TRAITS(PCGSolver, "cg")
IT_TRAITS(MINRESSolver, "minres")
IT_TRAITS(PMINRESSolver, "pminres")

static const Operator& opr(const J& a, const char* k)
{
    Operator* p = O(a, k).oper();
    if (!p) { throw std::logic_error(std::string("script: not an operator: ") + k); }
    return *p;
}
static double tolv(const J& a, const char* k) { return std::pow(10.0, -(double)a[k].i); }
static int fourfold_used = 0;
static double fourfold(const VectorView<double>& x, const VectorView<double>& y)
{
    ++fourfold_used;
    double s = 0.0;
    for (int i = 0; i < x.size(); ++i) { s += 4.0 * x[i] * y[i]; }
    return s;
}
OP("it.new")
{
    const std::string& ty = S(a, "ty");
    const std::string& f = S(a, "form");
    if (f == "default")
    {
        if (ty == "cg") { P(a, "z", PCGSolver()); }
        else if (ty == "minres") { P(a, "z", MINRESSolver()); }
        else { P(a, "z", PMINRESSolver()); }
        NONE;
    }
    const Operator& A = opr(a, "A");
    const bool pre = S(a, "M") != "";
    const int dot = (int)I(a, "dot");            // an inner product of the caller: the usual one, or four times it
    double (*ip)(const VectorView<double>&, const VectorView<double>&) = linalgcpp::InnerProduct;
    if (dot == 2) { ip = fourfold; }
    const int mx = f == "defaults" ? 0 : I(a, "max");
    const double re = f == "defaults" ? 0 : tolv(a, "rel"), ab = f == "defaults" ? 0 : tolv(a, "abs");
    const bool vb = B(a, "verbose");
    if (ty == "cg")
    {
        if (pre)
        {
            const Operator& M = opr(a, "M");
            if (f == "defaults") { P(a, "z", PCGSolver(A, M)); }
            else if (dot) { P(a, "z", PCGSolver(A, M, mx, re, ab, vb, ip)); }
            else { P(a, "z", PCGSolver(A, M, mx, re, ab, vb)); }
        }
        else if (f == "defaults") { P(a, "z", PCGSolver(A)); }
        else if (dot) { P(a, "z", PCGSolver(A, mx, re, ab, vb, ip)); }
        else { P(a, "z", PCGSolver(A, mx, re, ab, vb)); }
    }
    else if (ty == "minres")
    {
        if (f == "defaults") { P(a, "z", MINRESSolver(A)); }
        else if (dot) { P(a, "z", MINRESSolver(A, mx, re, ab, vb, ip)); }
        else { P(a, "z", MINRESSolver(A, mx, re, ab, vb)); }
    }
    else
    {
        const Operator& M = opr(a, "M");
        if (f == "defaults") { P(a, "z", PMINRESSolver(A, M)); }
        else if (dot) { P(a, "z", PMINRESSolver(A, M, mx, re, ab, vb, ip)); }
        else { P(a, "z", PMINRESSolver(A, M, mx, re, ab, vb)); }
    }
    NONE;
}
static Solver& solver(const J& a)
{
    Solver* s = dynamic_cast<Solver*>(O(a, "S").oper());
    if (!s) { throw std::logic_error("script: not a solver"); }
    return *s;
}
OP("it.set")
{
    Solver& s = solver(a);
    const std::string& f = S(a, "form");
    if (f == "max") { s.SetMaxIter(I(a, "max")); }
    else if (f == "rel") { s.SetRelTol(tolv(a, "rel")); }
    else if (f == "abs") { s.SetAbsTol(tolv(a, "abs")); }
    else if (f == "verbose") { s.SetVerbose(B(a, "verbose")); }
    else if (f == "A") { s.SetOperator(opr(a, "A")); }
    else if (f == "M") { dynamic_cast<PCGSolver&>(s).SetPreconditioner(opr(a, "M")); }
    else { throw std::logic_error("script: it.set"); }
    NONE;
}
static J settle(VectorView<double> x, bool trunc)
{
    if (!trunc) { snap(x.begin(), x.size()); return J(); }
    J r = fxs(std::vector<double>(x.begin(), x.end()));
    for (int i = 0; i < x.size(); ++i) { x.begin()[i] = 0.0; }
    return r;
}
// runs f on b and x, or on copies of them multiplied by 2^sc (exactly)
template <class F> static void upto(const VectorView<double>& b, VectorView<double> x, long long sc, F f)
{
    if (!sc) { f(b, x); return; }
    Vector<double> bl(b), xl(x);
    shift(bl.begin(), bl.size(), sc);
    shift(xl.begin(), xl.size(), sc);
    f(bl, xl);
    shift(xl.begin(), xl.size(), -sc);
    for (int i = 0; i < x.size(); ++i) { x.begin()[i] = xl[i]; }
}
OP("it.solve")
{
    const Solver& s = solver(a);
    const VectorView<double>& b = CV<double>(a, "b");
    VectorView<double> x(VV<double>(a, "x"));
    fourfold_used = 0;
    upto(b, x, SC(a), [&](const VectorView<double>& bb, VectorView<double> xx) { s.Mult(bb, xx); });
    J r = J::arr();
    r.push(J(fourfold_used > 0 ? 1 : 0));        // was the caller's inner product asked?
    const J t = settle(x, B(a, "trunc"));
    if (t.t != J::Null) { r.push(t); }
    return r;
}
OP("it.free")
{
    const std::string& ty = S(a, "ty");
    const Operator& A = opr(a, "A");
    const VectorView<double>& b = CV<double>(a, "b");
    const bool tr = B(a, "trunc");
    const bool def = B(a, "defaults");
    const int mx = def ? 0 : I(a, "max");
    const double re = def ? 0 : tolv(a, "rel"), ab = def ? 0 : tolv(a, "abs");
    if (S(a, "form") == "ret")
    {
        if (ty == "cg") { P(a, "z", def ? CG(A, b) : CG(A, b, mx, re, ab)); }
        else if (ty == "pcg") { P(a, "z", def ? PCG(A, opr(a, "M"), b) : PCG(A, opr(a, "M"), b, mx, re, ab)); }
        else if (ty == "minres") { P(a, "z", def ? MINRES(A, b) : MINRES(A, b, mx, re, ab)); }
        else { P(a, "z", def ? PMINRES(A, opr(a, "M"), b) : PMINRES(A, opr(a, "M"), b, mx, re, ab)); }
        return settle(G<Vector<double>>(a, "z"), tr);
    }
    VectorView<double> x(VV<double>(a, "x"));
    upto(b, x, SC(a), [&](const VectorView<double>& b, VectorView<double> x)
    {
        if (ty == "cg") { if (def) { CG(A, b, x); } else { CG(A, b, x, mx, re, ab); } }
        else if (ty == "pcg") { if (def) { PCG(A, opr(a, "M"), b, x); } else { PCG(A, opr(a, "M"), b, x, mx, re, ab); } }
        else if (ty == "minres") { if (def) { MINRES(A, b, x); } else { MINRES(A, b, x, mx, re, ab); } }
        else { if (def) { PMINRES(A, opr(a, "M"), b, x); } else { PMINRES(A, opr(a, "M"), b, x, mx, re, ab); } }
    });
    return settle(x, tr);
}

// ------------------------------------------------------------------ sparse direct solver
template <> struct Traits<SparseSolver>
{
    TRAITS_COMMON
    static const char* kind() { return "sd"; }
    static J proj(SparseSolver& s) { return J::obj().set("k", "sd").set("r", J(s.Rows())).set("c", J(s.Cols())); }
};
OP("sd.new")
{
    const std::string& f = S(a, "form");
    if (f == "default") { P(a, "z", SparseSolver()); NONE; }
    SparseMatrix<double>& A = G<SparseMatrix<double>>(a, "A");
    if (f == "move") { SparseMatrix<double> t(A); P(a, "z", SparseSolver(std::move(t))); }
    else { P(a, "z", SparseSolver(A)); }
    NONE;
}
OP("sd.solve")
{
    const Operator& s = G<SparseSolver>(a, "S");
    const VectorView<double>& b = CV<double>(a, "b");
    const std::string& f = S(a, "form");
    const bool tr = B(a, "tr");
    VectorView<double> bw(VV<double>(a, "b"));
    const bool apart = f == "ret" || a["z"].s != a["b"].s;
    const long long sc = apart ? SC(a) : 0;
    shift(bw.begin(), bw.size(), sc);
    if (f == "ret") { P(a, "z", tr ? s.MultAT(b) : s.Mult(b)); }
    else if (f == "resize") { Vector<double>& z = G<Vector<double>>(a, "z"); if (tr) { s.MultAT(b, z); } else { s.Mult(b, z); } }
    else { VectorView<double> z(VV<double>(a, "z")); if (tr) { s.MultAT(b, z); } else { s.Mult(b, z); } }
    shift(bw.begin(), bw.size(), -sc);
    VectorView<double> z(VV<double>(a, "z"));
    shift(z.begin(), z.size(), -sc);
    snap(z.begin(), z.size(), 1e-9);
    NONE;
}
