// Distributed objects (C22): an object of a script is one library object per rank.  The ranks are threads (ranks.hpp).
#include "core_kinds.hpp"
#include "ranks.hpp"
#include "parlinalgcpp.hpp"
#include <mutex>

template <class T> struct Par
{
    std::vector<std::unique_ptr<T>> L;
    explicit Par(std::vector<std::unique_ptr<T>>&& l) : L(std::move(l)) {}
    Par(const Par& o) : L(o.L.size()) { ranks::run(n(), [&](int r) { L[r].reset(new T(static_cast<const T&>(*o.L[r]))); }); }
    Par(Par&& o) : L(o.L.size()) { ranks::run(n(), [&](int r) { L[r].reset(new T(std::move(*o.L[r]))); }); }
    Par& operator=(const Par& o) { same(o); ranks::run(n(), [&](int r) { *L[r] = static_cast<const T&>(*o.L[r]); }); return *this; }
    Par& operator=(Par&& o) { same(o); ranks::run(n(), [&](int r) { *L[r] = std::move(*o.L[r]); }); return *this; }
    friend void swap(Par& a, Par& b) { a.same(b); ranks::run(a.n(), [&](int r) { using std::swap; swap(*a.L[r], *b.L[r]); }); }
    ~Par() { if (n()) { ranks::run(n(), [&](int r) { L[r].reset(); }); } }
    int n() const { return (int)L.size(); }
    void same(const Par& o) const { if (o.n() != n()) { throw std::logic_error("script: rank counts differ"); } }
    T& operator[](int r) { return *L[r]; }
};
// builds one object per rank and puts it in slot k
template <class T, class Fn1> static void build_par(const J& a, const char* k, int n, Fn1 f)
{
    std::vector<std::unique_ptr<T>> l(n);
    ranks::run(n, [&](int r) { l[r].reset(new T(f(r))); });
    env->put(S(a, k), std::unique_ptr<Obj>(new Hold<Par<T>>(std::move(l))));
}
// runs f on every rank and collects what it returns
template <class Fn1> static J each(int n, Fn1 f)
{
    std::vector<J> v(n);
    ranks::run(n, [&](int r) { v[r] = f(r); });
    J r = J::arr();
    for (auto& x : v) { r.push(x); }
    return r;
}
typedef Par<ParMatrix> PM;
typedef Par<ParVector> PV;

static J one_pm(const ParMatrix& m)
{
    SparseMatrix<double> d(m.GetDiag()), o(m.GetOffd());
    return J::obj().set("rs", ints(m.GetRowStarts())).set("cs", ints(m.GetColStarts()))
           .set("d", Traits<SparseMatrix<double>>::proj(d)).set("o", Traits<SparseMatrix<double>>::proj(o)).set("map", ints(m.GetColMap()));
}
static J pm_proj(const std::vector<const ParMatrix*>& ms)
{
    J l = J::arr();
    for (auto* m : ms) { l.push(one_pm(*m)); }
    return l;
}
template <> struct Traits<PM>
{
    TRAITS_COMMON
    static const char* kind() { return "pm"; }
    static J proj(PM& m)
    {
        std::vector<const ParMatrix*> ms;
        for (auto& x : m.L) { ms.push_back(x.get()); }
        return J::obj().set("k", "pm").set("n", J(m.n())).set("L", pm_proj(ms));
    }
};
template <> struct Traits<PV>
{
    TRAITS_COMMON
    static const char* kind() { return "pv"; }
    static J proj(PV& m)
    {
        J l = J::arr();
        for (auto& x : m.L) { l.push(J::obj().set("v", scs(*x)).set("gs", J(x->GlobalSize()))); }
        return J::obj().set("k", "pv").set("n", J(m.n())).set("L", l);
    }
};

static std::vector<int> starts(const std::vector<int>& off, int r) { return {off[r], off[r + 1], off.back()}; }
static SparseMatrix<double> csr(const J& b) { return SparseMatrix<double>(IV(b, "p"), IV(b, "j"), NV<double>(b, "x"), I(b, "r"), I(b, "c")); }

// ------------------------------------------------------------------ matrices
OP("pm.new")
{
    const std::string& f = S(a, "form");
    const int n = I(a, "n");
    if (f == "default") { build_par<ParMatrix>(a, "z", n, [&](int) { return ParMatrix(); }); NONE; }
    const std::vector<int> rs = IV(a, "rs"), cs = IV(a, "cs");
    build_par<ParMatrix>(a, "z", n, [&](int r)
    {
        const J& b = a["L"].a[r];
        if (f == "diag") { return ParMatrix(MPI_COMM_WORLD, csr(b["d"])); }
        if (f == "sqdiag") { return ParMatrix(MPI_COMM_WORLD, starts(rs, r), csr(b["d"])); }
        if (f == "rectdiag") { return ParMatrix(MPI_COMM_WORLD, starts(rs, r), starts(cs, r), csr(b["d"])); }
        if (f == "offsets") { return ParMatrix(MPI_COMM_WORLD, csr(b["d"]), csr(b["o"]), IV(b, "map")); }
        return ParMatrix(MPI_COMM_WORLD, starts(rs, r), starts(cs, r), csr(b["d"]), csr(b["o"]), IV(b, "map"));
    });
    NONE;
}
OP("pm.split")
{
    const SparseMatrix<double>& A = G<SparseMatrix<double>>(a, "A");
    const std::vector<int> part = IV(a, "part");
    build_par<ParMatrix>(a, "z", I(a, "n"), [&](int) { return ParSplit(MPI_COMM_WORLD, A, part); });
    NONE;
}
// products with vectors: x is a distributed vector; "view" and "op" write through local views
OP("pm.mulv")
{
    PM& A = G<PM>(a, "A");
    PV& x = G<PV>(a, "x");
    const bool tr = B(a, "tr");
    const std::string& f = S(a, "form");
    if (f == "pret")
    {
        build_par<ParVector>(a, "z", A.n(), [&](int r) { const ParMatrix& M = A[r]; return tr ? M.MultAT(x[r]) : M.Mult(x[r]); });
        NONE;
    }
    if (f == "ret" || f == "opret")
    {
        return each(A.n(), [&](int r)
        {
            const VectorView<double>& v = x[r];
            const ParMatrix& M = A[r];
            const Operator& O = A[r];
            if (f == "ret") { return scs(tr ? M.MultAT(v) : M.Mult(v)); }
            return scs(tr ? O.MultAT(v) : O.Mult(v));
        });
    }
    PV& z = G<PV>(a, "z");
    ranks::run(A.n(), [&](int r)
    {
        const ParMatrix& M = A[r];
        const VectorView<double>& v = x[r];
        const Operator& O = A[r];
        const ParOperator& Q = A[r];
        if (f == "pview") { if (tr) { M.MultAT(x[r], z[r]); } else { M.Mult(x[r], z[r]); } }
        else if (f == "op") { if (tr) { O.MultAT(v, VectorView<double>(z[r])); } else { Q.Mult(v, VectorView<double>(z[r])); } }
        else if (tr) { M.MultAT(v, VectorView<double>(z[r])); }
        else { M.Mult(v, VectorView<double>(z[r])); }
    });
    NONE;
}
OP("pm.mul")
{
    PM& A = G<PM>(a, "A");
    PM& X = G<PM>(a, "B");
    const std::string& f = S(a, "form");
    build_par<ParMatrix>(a, "z", A.n(), [&](int r) -> ParMatrix
    {
        if (f == "op") { return A[r] * X[r]; }
        if (f == "free") { return linalgcpp::Mult(static_cast<const ParMatrix&>(A[r]), static_cast<const ParMatrix&>(X[r])); }
        return A[r].Mult(static_cast<const ParMatrix&>(X[r]));
    });
    NONE;
}
OP("pm.trans")
{
    PM& A = G<PM>(a, "A");
    const bool free = S(a, "form") == "free";
    build_par<ParMatrix>(a, "z", A.n(), [&](int r) { return free ? linalgcpp::Transpose(A[r]) : A[r].Transpose(); });
    NONE;
}
OP("pm.rap")
{
    PM& A = G<PM>(a, "A");
    PM& X = G<PM>(a, "P");
    if (a.has("R")) { PM& R = G<PM>(a, "R"); build_par<ParMatrix>(a, "z", A.n(), [&](int r) { return RAP(R[r], A[r], X[r]); }); }
    else { build_par<ParMatrix>(a, "z", A.n(), [&](int r) { return RAP(A[r], X[r]); }); }
    NONE;
}
OP("pm.add")
{
    PM& A = G<PM>(a, "A");
    PM& X = G<PM>(a, "B");
    const bool sub = B(a, "sub");
    const std::string& f = S(a, "form");
    const double al = N(a, "alpha"), be = N(a, "beta");
    build_par<ParMatrix>(a, "z", A.n(), [&](int r) -> ParMatrix
    {
        if (f == "2") { return sub ? ParSub(A[r], X[r]) : ParAdd(A[r], X[r]); }
        if (f == "4") { return sub ? ParSub(al, A[r], be, X[r]) : ParAdd(al, A[r], be, X[r]); }
        std::vector<int> marker(A[r].GlobalCols() + I(a, "extra"), I(a, "fill"));
        if (f == "5twice") { ParMatrix first = sub ? ParSub(al, A[r], be, X[r], marker) : ParAdd(al, A[r], be, X[r], marker); }
        return sub ? ParSub(al, A[r], be, X[r], marker) : ParAdd(al, A[r], be, X[r], marker);
    });
    NONE;
}
OP("pm.sca")
{
    PM& A = G<PM>(a, "A");
    const std::string& f = S(a, "form");
    if (f == "neg") { build_par<ParMatrix>(a, "z", A.n(), [&](int r) { return -A[r]; }); NONE; }
    const double v = N(a, "val");
    std::vector<char> same(A.n());
    ranks::run(A.n(), [&](int r) { same[r] = f == "set" ? &(A[r] = v) == &A[r] : &(A[r] *= v) == &A[r]; });
    for (char c : same) { if (!c) { return J(0); } }
    NONE;
}
OP("pm.adddiag")
{
    PM& A = G<PM>(a, "A");
    if (S(a, "form") == "val") { const double v = N(a, "val"); ranks::run(A.n(), [&](int r) { A[r].AddDiag(v); }); }
    else
    {
        std::vector<std::vector<double>> x;
        for (auto& q : a["xs"].a) { x.emplace_back(); for (auto& e : q.a) { x.back().push_back(env->un(e)); } }
        ranks::run(A.n(), [&](int r) { A[r].AddDiag(x[r]); });
    }
    NONE;
}
OP("pm.scale")
{
    PM& A = G<PM>(a, "A");
    const std::string& f = S(a, "form");
    std::vector<std::vector<double>> x;
    for (auto& q : a["xs"].a) { x.emplace_back(); for (auto& e : q.a) { x.back().push_back(env->un(e)); } }
    ranks::run(A.n(), [&](int r)
    {
        if (f == "rows") { A[r].ScaleRows(x[r]); }
        else if (f == "irows") { A[r].InverseScaleRows(x[r]); }
        else
        {
            const SparseMatrix<double> d(x[r]);
            if (f == "rowsm") { A[r].ScaleRows(d); } else { A[r].InverseScaleRows(d); }
        }
    });
    NONE;
}
OP("pm.elim")          // idx: the local row each rank eliminates, -1 for none
{
    PM& A = G<PM>(a, "A");
    const std::vector<int> idx = IV(a, "idx");
    ranks::run(A.n(), [&](int r) { if (idx[r] >= 0) { A[r].EliminateRow(idx[r]); } });
    NONE;
}
OP("pm.acc")
{
    PM& A = G<PM>(a, "A");
    const std::string& f = S(a, "form");
    return each(A.n(), [&](int r) -> J
    {
        const ParMatrix& M = A[r];
        const ParOperator& Q = A[r];
        if (f == "nnz") { return J(M.nnz()); }
        if (f == "maxnorm") { return sc(M.MaxNorm()); }
        if (f == "rows") { return J(Q.Rows()); }
        if (f == "cols") { return J(Q.Cols()); }
        if (f == "grows") { return J(Q.GlobalRows()); }
        if (f == "gcols") { return J(Q.GlobalCols()); }
        if (f == "rstarts") { return ints(Q.GetRowStarts()); }
        if (f == "cstarts") { return ints(Q.GetColStarts()); }
        if (f == "comm") { return J(Q.GetComm() == MPI_COMM_WORLD ? 1 : 0); }
        if (f == "myid") { return J(Q.GetMyId()); }
        throw std::logic_error("script: acc " + f);
    });
}
OP("pm.pkg")
{
    PM& A = G<PM>(a, "A");
    return each(A.n(), [&](int r) -> J
    {
        ParCommPkg first = A[r].MakeCommPkg();
        ParCommPkg second(first), p;
        p = std::move(second);
        const int ok = p.comm_ == MPI_COMM_WORLD && p.num_sends_ == (int)p.send_procs_.size() && p.num_recvs_ == (int)p.recv_procs_.size();
        return J::obj().set("ok", J(ok)).set("sp", ints(p.send_procs_)).set("ss", ints(p.send_map_starts_)).set("se", ints(p.send_map_elmts_))
               .set("rp", ints(p.recv_procs_)).set("rv", ints(p.recv_vec_starts_));
    });
}
OP("pm.l1")
{
    PM& A = G<PM>(a, "A");
    const int opt = I(a, "opt");
    return each(A.n(), [&](int r) -> J
    {
        std::vector<double> l(I(a, "len"), 99.0);
        hypre_ParCSRComputeL1Norms(A[r], opt, l);
        return scs(l);
    });
}
OP("pm.offsets")
{
    const J& sizes = a["sizes"];
    return each((int)sizes.a.size(), [&](int r) -> J
    {
        std::vector<int> s;
        for (auto& x : sizes.a[r].a) { s.push_back((int)x.i); }
        J l = J::arr();
        if (S(a, "form") == "int") { l.push(ints(GenerateOffsets(MPI_COMM_WORLD, s[0]))); }
        else { for (auto& o : GenerateOffsets(MPI_COMM_WORLD, s)) { l.push(ints(o)); } }
        return l;
    });
}
OP("pm.sortmap")
{
    std::vector<int> map = IV(a, "map");
    SortColumnMap(map, G<CooMatrix<double>>(a, "A"));
    return ints(map);
}

// ------------------------------------------------------------------ vectors
OP("pv.new")
{
    const std::string& f = S(a, "form");
    const int n = I(a, "n");
    if (f == "default") { build_par<ParVector>(a, "z", n, [&](int) { return ParVector(); }); NONE; }
    const std::vector<int> ps = IV(a, "ps");
    std::vector<std::vector<double>> x;
    if (f == "copy") { for (auto& q : a["xs"].a) { x.emplace_back(); for (auto& e : q.a) { x.back().push_back(env->un(e)); } } }
    build_par<ParVector>(a, "z", n, [&](int r)
    {
        const std::vector<int> st = starts(ps, r);
        if (f == "zero") { return ParVector(MPI_COMM_WORLD, st); }
        if (f == "const") { return ParVector(MPI_COMM_WORLD, N(a, "val"), st); }
        std::vector<double> l = x[r];
        return ParVector(MPI_COMM_WORLD, VectorView<double>(l), st);
    });
    NONE;
}
OP("pv.put") { G<PV>(a, "x")[I(a, "rank")][I(a, "i")] = N(a, "val"); NONE; }
OP("pv.fill") { PV& x = G<PV>(a, "x"); ranks::run(x.n(), [&](int r) { x[r] = N(a, "val"); }); NONE; }
OP("pv.ew")
{
    PV& x = G<PV>(a, "x");
    PV& y = G<PV>(a, "y");
    const std::string& f = S(a, "form");
    ranks::run(x.n(), [&](int r)
    {
        if (f == "add") { x[r] += y[r]; } else if (f == "sub") { x[r] -= y[r]; } else if (f == "mul") { x[r] *= y[r]; } else { x[r] /= y[r]; }
    });
    NONE;
}
OP("pv.sca")
{
    PV& x = G<PV>(a, "x");
    const std::string& f = S(a, "form");
    const double v = N(a, "val");
    ranks::run(x.n(), [&](int r)
    {
        if (f == "add") { x[r] += v; } else if (f == "sub") { x[r] -= v; } else { x[r] *= v; }
    });
    NONE;
}
OP("pv.dot")
{
    PV& x = G<PV>(a, "x");
    PV& y = G<PV>(a, "y");
    const std::string& f = S(a, "form");
    return each(x.n(), [&](int r) -> J
    {
        const VectorView<double>& xv = x[r];
        if (f == "member") { return sc(x[r].Mult(y[r])); }
        if (f == "base") { return sc(xv.Mult(y[r])); }
        if (f == "free") { return sc(linalgcpp::Mult(x[r], y[r])); }
        if (f == "par") { return sc(ParMult(MPI_COMM_WORLD, static_cast<const VectorView<double>&>(x[r]), y[r])); }
        // local vectors: ParMult must not rely on the class of its arguments
        const Vector<double> lx(xv), ly(static_cast<const VectorView<double>&>(y[r]));
        return sc(f == "parloc" ? ParMult(MPI_COMM_WORLD, lx, ly) : ParMult(lx, ly));
    });
}
OP("pv.norm")
{
    PV& x = G<PV>(a, "x");
    const std::string& f = S(a, "form");
    return each(x.n(), [&](int r) -> J
    {
        const VectorView<double>& xv = x[r];
        if (f == "member") { return sc(x[r].L2Norm()); }
        if (f == "base") { return sc(xv.L2Norm()); }
        if (f == "free") { return sc(linalgcpp::L2Norm(static_cast<const ParVector&>(x[r]))); }
        const Vector<double> lx(xv);
        return sc(ParL2Norm(MPI_COMM_WORLD, lx));
    });
}
OP("pv.sum")
{
    PV& x = G<PV>(a, "x");
    const bool local = S(a, "form") == "local";
    return each(x.n(), [&](int r) -> J { return sc(local ? x[r].LocalSum() : x[r].GlobalSum()); });
}
OP("pv.subavg") { PV& x = G<PV>(a, "x"); ranks::run(x.n(), [&](int r) { SubAvg(x[r]); }); NONE; }
OP("pv.normalize") { PV& x = G<PV>(a, "x"); ranks::run(x.n(), [&](int r) { x[r].Normalize(); }); NONE; }

// ------------------------------------------------------------------ solvers
static J pfx(double v)
{
    if (std::isnan(v)) { return J((long long)S_NAN); }
    const double w = std::floor(v * 1e4 + 0.5);
    if (!(std::fabs(w) < 1.9e9)) { return J((long long)S_BIG); }
    return J((long long)w);
}
template <class V> static J pfxs(const V& v) { J r = J::arr(); for (double x : v) { r.push(pfx(x)); } return r; }

template <class T> static J ps_proj(const char* ty, Par<T>& m)
{
    std::vector<const ParMatrix*> ms;
    J l = J::arr();
    for (auto& x : m.L)
    {
        ms.push_back(&x->GetMatrix());
        const ParOperator& Q = *x;
        l.push(J::obj().set("rs", ints(Q.GetRowStarts())).set("cs", ints(Q.GetColStarts())).set("r", J(Q.Rows())).set("c", J(Q.Cols())));
    }
    return J::obj().set("k", "ps").set("ty", ty).set("n", J(m.n())).set("S", l).set("L", pm_proj(ms));
}
#define PS_TRAITS(X, name) template <> struct Traits<Par<X>> { TRAITS_COMMON static const char* kind() { return "ps"; } static J proj(Par<X>& m) { return ps_proj(name, m); } };
PS_TRAITS(ParCG, "cg")
PS_TRAITS(BoomerAMG, "amg")
PS_TRAITS(ParaSails, "sails")
PS_TRAITS(ParDiagScale, "diag")
PS_TRAITS(ParSmoother, "smooth")
PS_TRAITS(ParSolver, "plain")

template <class T> static T* as_par(const J& a, const char* k, int r)
{
    auto* p = dynamic_cast<Hold<Par<T>>*>(&O(a, k));
    return p ? &p->v[r] : nullptr;
}
static ParOperator& paroper(const J& a, const char* k, int r)
{
    if (auto* p = as_par<ParMatrix>(a, k, r)) { return *p; }
    if (auto* p = as_par<ParCG>(a, k, r)) { return *p; }
    if (auto* p = as_par<BoomerAMG>(a, k, r)) { return *p; }
    if (auto* p = as_par<ParaSails>(a, k, r)) { return *p; }
    if (auto* p = as_par<ParDiagScale>(a, k, r)) { return *p; }
    if (auto* p = as_par<ParSmoother>(a, k, r)) { return *p; }
    if (auto* p = as_par<ParSolver>(a, k, r)) { return *p; }
    throw std::logic_error("script: not a distributed operator");
}
static ParSolver& parsolver(const J& a, const char* k, int r)
{
    auto* p = dynamic_cast<ParSolver*>(&paroper(a, k, r));
    if (!p) { throw std::logic_error("script: not a distributed solver"); }
    return *p;
}
static double tol(const J& a) { return std::pow(10.0, -I(a, "tol")); }

OP("ps.new")
{
    const std::string& ty = S(a, "ty");
    const int n = I(a, "n");
    if (S(a, "form") == "default")
    {
        if (ty == "cg") { build_par<ParCG>(a, "z", n, [&](int) { return ParCG(); }); }
        else if (ty == "amg") { build_par<BoomerAMG>(a, "z", n, [&](int) { return BoomerAMG(); }); }
        else if (ty == "sails") { build_par<ParaSails>(a, "z", n, [&](int) { return ParaSails(); }); }
        else if (ty == "diag") { build_par<ParDiagScale>(a, "z", n, [&](int) { return ParDiagScale(); }); }
        else if (ty == "smooth") { build_par<ParSmoother>(a, "z", n, [&](int) { return ParSmoother(); }); }
        else { build_par<ParSolver>(a, "z", n, [&](int) { return ParSolver(); }); }
        NONE;
    }
    PM& A = G<PM>(a, "A");
    const bool dflt = S(a, "form") == "defaults";
    if (ty == "cg")
    {
        if (a.has("M"))
        {
            build_par<ParCG>(a, "z", n, [&](int r) { return dflt ? ParCG(A[r], parsolver(a, "M", r)) : ParCG(A[r], parsolver(a, "M", r), I(a, "max"), tol(a), B(a, "verbose")); });
        }
        else { build_par<ParCG>(a, "z", n, [&](int r) { return dflt ? ParCG(A[r]) : ParCG(A[r], I(a, "max"), tol(a), B(a, "verbose")); }); }
    }
    else if (ty == "amg") { build_par<BoomerAMG>(a, "z", n, [&](int r) { return dflt ? BoomerAMG(A[r]) : BoomerAMG(A[r], I(a, "max"), tol(a), B(a, "verbose")); }); }
    else if (ty == "sails") { build_par<ParaSails>(a, "z", n, [&](int r) { return dflt ? ParaSails(A[r]) : ParaSails(A[r], B(a, "verbose"), 0, 0, 0.0, 0.1, 0.1, 1); }); }
    else if (ty == "diag") { build_par<ParDiagScale>(a, "z", n, [&](int r) { return dflt ? ParDiagScale(A[r]) : ParDiagScale(A[r], I(a, "max"), tol(a), B(a, "verbose")); }); }
    else if (ty == "smooth")
    {
        build_par<ParSmoother>(a, "z", n, [&](int r)
        {
            return dflt ? ParSmoother(A[r]) : ParSmoother(A[r], (SmoothType)I(a, "stype"), I(a, "times"), 1.0 / I(a, "weight"), 1.0 / I(a, "omega"));
        });
    }
    else { build_par<ParSolver>(a, "z", n, [&](int r) { return dflt ? ParSolver(A[r]) : ParSolver(A[r], I(a, "max"), tol(a), B(a, "verbose")); }); }
    NONE;
}
OP("ps.diagscaling") { Par<ParCG>& C = G<Par<ParCG>>(a, "S"); ranks::run(C.n(), [&](int r) { C[r].EnableDiagScaling(); }); NONE; }
OP("ps.sailset")
{
    Par<ParaSails>& C = G<Par<ParaSails>>(a, "S");
    ranks::run(C.n(), [&](int r) { C[r].SetFilter(0.05); C[r].SetSym(1); C[r].SetLoadBal(0.5); C[r].SetReuse(1); C[r].SetLogging(0); });
    NONE;
}
// result in fixed point; x0: what the output holds before the call
OP("ps.solve")
{
    PV& b = G<PV>(a, "b");
    PV& x = G<PV>(a, "x");
    const std::string& f = S(a, "form");
    return each(b.n(), [&](int r) -> J
    {
        ParSolver& s = parsolver(a, "S", r);
        Vector<double> out(static_cast<const VectorView<double>&>(x[r]));
        const Vector<double> in(static_cast<const VectorView<double>&>(b[r]));
        if (f == "op") { static_cast<const Operator&>(s).Mult(in, VectorView<double>(out)); }
        else { s.Mult(in, VectorView<double>(out)); }
        return pfxs(out);
    });
}
OP("ps.lobpcg")
{
    const int m = I(a, "ev");
    const int n = I(a, "n");
    const std::string& f = S(a, "form");
    return each(n, [&](int r) -> J
    {
        const ParOperator& A = paroper(a, "A", r);
        const Operator* M = a.has("M") ? &static_cast<const Operator&>(paroper(a, "M", r)) : nullptr;
        J v = J::arr();
        if (f == "count") { auto ev = LOBPCG(A, m, M); return J::obj().set("ev", pfxs(ev)).set("v", v); }
        std::vector<Vector<double>> x(m, Vector<double>(A.Rows(), 1.0));
        auto ev = M ? LOBPCG(A, x, M) : LOBPCG(A, x);
        for (auto& q : x) { v.push(pfxs(q)); }
        return J::obj().set("ev", pfxs(ev)).set("v", v);
    });
}
