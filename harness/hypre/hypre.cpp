// The functions of hypre that parlinalgcpp calls, after hypre 2.10's documentation and sources, on top of ranks.hpp.
#include "hypre_defs.h"
#include "ranks.hpp"

using std::vector;
typedef vector<char> Bytes;
template <class T> static vector<T> as(const Bytes& b) { vector<T> r(b.size() / sizeof(T)); if (!r.empty()) { memcpy(r.data(), b.data(), r.size() * sizeof(T)); } return r; }
template <class T> static vector<vector<T>> gatherv(const char* what, const T* p, size_t n)
{
    vector<vector<T>> r;
    for (auto& b : ranks::gather(what, 0, p, n * sizeof(T))) { r.push_back(as<T>(b)); }
    return r;
}
static double gsum(double x) { double r; MPI_Allreduce(&x, &r, 1, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD); return r; }
static void fatal(const char* m) { fprintf(stderr, "hypre: %s\n", m); fflush(stderr); abort(); }

void* hypre_alloc(size_t bytes) { return bytes ? calloc(bytes, 1) : nullptr; }
thread_local HYPRE_Int hypre_error_flag = 0;
HYPRE_Int hypre_NumThreads() { return 1; }
HYPRE_Int hypre_NumActiveThreads() { return 1; }
HYPRE_Int hypre_GetThreadNum() { return 0; }
HYPRE_Int HYPRE_AssumedPartitionCheck() { return 1; }
HYPRE_Int hypre_MPI_Comm_size(MPI_Comm c, HYPRE_Int* n) { return MPI_Comm_size(c, n); }
HYPRE_Int hypre_MPI_Comm_rank(MPI_Comm c, HYPRE_Int* n) { return MPI_Comm_rank(c, n); }
HYPRE_Int hypre_BinarySearch(HYPRE_Int* list, HYPRE_Int value, HYPRE_Int n)
{
    HYPRE_Int lo = 0, hi = n - 1;
    while (lo <= hi)
    {
        const HYPRE_Int m = (lo + hi) / 2;
        if (value < list[m]) { hi = m - 1; } else if (value > list[m]) { lo = m + 1; } else { return m; }
    }
    return -1;
}

// ------------------------------------------------------------------ vectors
HYPRE_Int hypre_SeqVectorSetDataOwner(hypre_Vector* v, HYPRE_Int o) { v->owns_data = o; return 0; }
hypre_ParVector* hypre_ParVectorCreate(MPI_Comm c, HYPRE_Int n, HYPRE_Int* part)
{
    if (n < 0 || !part) { hypre_error_in_arg(2); return nullptr; }
    hypre_ParVector* v = hypre_CTAlloc(hypre_ParVector, 1);
    v->comm = c; v->global_size = n; v->first_index = part[0]; v->last_index = part[1] - 1; v->partitioning = part;
    v->local_vector = hypre_CTAlloc(hypre_Vector, 1);
    v->local_vector->size = part[1] - part[0];
    v->local_vector->owns_data = 1;
    v->owns_data = v->owns_partitioning = 1;
    return v;
}
HYPRE_Int hypre_ParVectorDestroy(hypre_ParVector* v)
{
    if (!v) { return 0; }
    if (v->owns_data)
    {
        if (v->local_vector->owns_data) { hypre_TFree(v->local_vector->data); }
        hypre_TFree(v->local_vector);
    }
    if (v->owns_partitioning) { hypre_TFree(v->partitioning); }
    hypre_TFree(v);
    return 0;
}
HYPRE_Int hypre_ParVectorInitialize(hypre_ParVector* v)
{
    if (!v->local_vector->data) { v->local_vector->data = hypre_CTAlloc(HYPRE_Complex, v->local_vector->size); }
    return 0;
}
HYPRE_Int hypre_ParVectorSetDataOwner(hypre_ParVector* v, HYPRE_Int o) { v->owns_data = o; return 0; }
HYPRE_Int hypre_ParVectorSetPartitioningOwner(hypre_ParVector* v, HYPRE_Int o) { v->owns_partitioning = o; return 0; }

// ------------------------------------------------------------------ sequential matrices
static hypre_CSRMatrix* csr_create(HYPRE_Int r, HYPRE_Int c, HYPRE_Int nnz)
{
    hypre_CSRMatrix* m = hypre_CTAlloc(hypre_CSRMatrix, 1);
    m->num_rows = r; m->num_cols = c; m->num_nonzeros = nnz; m->owns_data = 1; m->num_rownnz = r;
    return m;
}
HYPRE_Int hypre_CSRMatrixDestroy(hypre_CSRMatrix* m)
{
    if (!m) { return 0; }
    hypre_TFree(m->i);
    if (m->rownnz) { hypre_TFree(m->rownnz); }
    if (m->owns_data) { hypre_TFree(m->data); hypre_TFree(m->j); }
    hypre_TFree(m);
    return 0;
}
HYPRE_Int hypre_CSRMatrixSetRownnz(hypre_CSRMatrix* m)
{
    HYPRE_Int n = 0;
    for (HYPRE_Int i = 0; i < m->num_rows; ++i) { n += m->i[i + 1] > m->i[i]; }
    m->num_rownnz = n;
    if (n == 0 || n == m->num_rows) { m->rownnz = nullptr; return 0; }
    m->rownnz = hypre_CTAlloc(HYPRE_Int, n);
    n = 0;
    for (HYPRE_Int i = 0; i < m->num_rows; ++i) { if (m->i[i + 1] > m->i[i]) { m->rownnz[n++] = i; } }
    return 0;
}
HYPRE_Int hypre_CSRMatrixReorder(hypre_CSRMatrix* m)      // the diagonal entry of every row first
{
    if (m->num_rows != m->num_cols) { return -1; }
    for (HYPRE_Int i = 0; i < m->num_rows; ++i)
    {
        for (HYPRE_Int k = m->i[i]; k < m->i[i + 1]; ++k)
        {
            if (m->j[k] == i)
            {
                std::swap(m->j[k], m->j[m->i[i]]);
                std::swap(m->data[k], m->data[m->i[i]]);
                break;
            }
            if (k == m->i[i + 1] - 1) { return -2; }
        }
    }
    return 0;
}

// ------------------------------------------------------------------ distributed matrices
hypre_ParCSRMatrix* hypre_ParCSRMatrixCreate(MPI_Comm c, HYPRE_Int gr, HYPRE_Int gc, HYPRE_Int* rs, HYPRE_Int* cs, HYPRE_Int noffd, HYPRE_Int nd, HYPRE_Int no)
{
    hypre_ParCSRMatrix* m = hypre_CTAlloc(hypre_ParCSRMatrix, 1);
    m->comm = c; m->global_num_rows = gr; m->global_num_cols = gc;
    m->first_row_index = rs[0]; m->last_row_index = rs[1] - 1;
    m->first_col_diag = cs[0]; m->last_col_diag = cs[1] - 1;
    m->diag = csr_create(rs[1] - rs[0], cs[1] - cs[0], nd);
    m->offd = csr_create(rs[1] - rs[0], noffd, no);
    m->row_starts = rs; m->col_starts = cs;
    m->owns_data = m->owns_row_starts = m->owns_col_starts = 1;
    if (rs == cs) { m->owns_col_starts = 0; }
    return m;
}
HYPRE_Int hypre_ParCSRMatrixDestroy(hypre_ParCSRMatrix* m)
{
    if (!m) { return 0; }
    if (m->owns_data)
    {
        hypre_CSRMatrixDestroy(m->diag);
        hypre_CSRMatrixDestroy(m->offd);
        if (m->col_map_offd) { hypre_TFree(m->col_map_offd); }
        if (m->comm_pkg) { hypre_MatvecCommPkgDestroy(m->comm_pkg); }
    }
    if (m->owns_row_starts) { hypre_TFree(m->row_starts); }
    if (m->owns_col_starts) { hypre_TFree(m->col_starts); }
    hypre_TFree(m);
    return 0;
}
HYPRE_Int hypre_ParCSRMatrixSetNumNonzeros(hypre_ParCSRMatrix* m)
{
    const HYPRE_Int n = m->diag->num_rows;
    HYPRE_Int local = m->diag->i[n] + m->offd->i[n];
    MPI_Allreduce(&local, &m->num_nonzeros, 1, MPI_INT, MPI_SUM, m->comm);
    return 0;
}
HYPRE_Int hypre_MatvecCommPkgCreate(hypre_ParCSRMatrix* A)
{
    const int P = ranks::size(), me = ranks::rank(), n = A->offd->num_cols;
    HYPRE_Int own[2] = {A->first_col_diag, A->last_col_diag};
    auto owns = gatherv("CommPkg cols", own, 2);
    auto maps = gatherv("CommPkg map", A->col_map_offd, n);
    hypre_ParCSRCommPkg* p = hypre_CTAlloc(hypre_ParCSRCommPkg, 1);
    p->comm = A->comm;
    vector<HYPRE_Int> rp, rs(1, 0), sp, ss(1, 0), se;
    for (int k = 0; k < n; ++k)
    {
        int o = -1;
        for (int r = 0; r < P; ++r) { if (A->col_map_offd[k] >= owns[r][0] && A->col_map_offd[k] <= owns[r][1]) { o = r; } }
        if (o < 0 || o == me) { fatal("a column that no other rank owns"); }
        if (rp.empty() || rp.back() != o) { rp.push_back(o); rs.push_back(k); }
        rs.back() = k + 1;
    }
    for (int r = 0; r < P; ++r)
    {
        if (r == me) { continue; }
        const size_t before = se.size();
        for (int g : maps[r]) { if (g >= own[0] && g <= own[1]) { se.push_back(g - own[0]); } }
        if (se.size() > before) { sp.push_back(r); ss.push_back((int)se.size()); }
    }
    auto dup = [](const vector<HYPRE_Int>& v) { HYPRE_Int* q = hypre_CTAlloc(HYPRE_Int, v.size()); std::copy(v.begin(), v.end(), q); return q; };
    p->num_sends = (int)sp.size(); p->send_procs = dup(sp); p->send_map_starts = dup(ss); p->send_map_elmts = dup(se);
    p->num_recvs = (int)rp.size(); p->recv_procs = dup(rp); p->recv_vec_starts = dup(rs);
    A->comm_pkg = p;
    return 0;
}
HYPRE_Int hypre_MatvecCommPkgDestroy(hypre_ParCSRCommPkg* p)
{
    if (!p) { return 0; }
    hypre_TFree(p->send_procs); hypre_TFree(p->send_map_starts); hypre_TFree(p->send_map_elmts);
    hypre_TFree(p->recv_procs); hypre_TFree(p->recv_vec_starts);
    hypre_TFree(p);
    return 0;
}
// jobs: 1 double values along the package, 2 double values against it, 11 and 12 the same for integers
hypre_ParCSRCommHandle* hypre_ParCSRCommHandleCreate(HYPRE_Int job, hypre_ParCSRCommPkg* p, void* s, void* r)
{
    const size_t w = job > 10 ? sizeof(HYPRE_Int) : sizeof(HYPRE_Complex);
    const bool back = job % 10 == 2;
    if (job != 1 && job != 2 && job != 11 && job != 12) { fatal("unknown job"); }
    for (int k = 0; k < (back ? p->num_recvs : p->num_sends); ++k)
    {
        const HYPRE_Int* st = back ? p->recv_vec_starts : p->send_map_starts;
        ranks::send((back ? p->recv_procs : p->send_procs)[k], (char*)s + st[k] * w, (st[k + 1] - st[k]) * w);
    }
    hypre_ParCSRCommHandle* h = hypre_CTAlloc(hypre_ParCSRCommHandle, 1);
    h->job = job; h->pkg = p; h->recv = r;
    return h;
}
HYPRE_Int hypre_ParCSRCommHandleDestroy(hypre_ParCSRCommHandle* h)
{
    if (!h) { return 0; }
    const size_t w = h->job > 10 ? sizeof(HYPRE_Int) : sizeof(HYPRE_Complex);
    const bool back = h->job % 10 == 2;
    const hypre_ParCSRCommPkg* p = h->pkg;
    for (int k = 0; k < (back ? p->num_sends : p->num_recvs); ++k)
    {
        const HYPRE_Int* st = back ? p->send_map_starts : p->recv_vec_starts;
        auto b = ranks::recv((back ? p->send_procs : p->recv_procs)[k]);
        if (b.size() != (st[k + 1] - st[k]) * w) { fatal("message of unexpected size"); }
        if (!b.empty()) { memcpy((char*)h->recv + st[k] * w, b.data(), b.size()); }
    }
    hypre_TFree(h);
    return 0;
}
static void need_pkg(hypre_ParCSRMatrix* A) { if (!A->comm_pkg) { hypre_MatvecCommPkgCreate(A); } }
// values of x at the columns of the off-diagonal block
static vector<double> ghost(hypre_ParCSRMatrix* A, const double* x)
{
    need_pkg(A);
    hypre_ParCSRCommPkg* p = A->comm_pkg;
    vector<double> s(p->send_map_starts[p->num_sends] + 1), r(A->offd->num_cols + 1);
    for (int k = 0; k < p->send_map_starts[p->num_sends]; ++k) { s[k] = x[p->send_map_elmts[k]]; }
    hypre_ParCSRCommHandleDestroy(hypre_ParCSRCommHandleCreate(1, p, s.data(), r.data()));
    return r;
}
static void addmul(double a, const hypre_CSRMatrix* m, const double* x, double* y)
{
    for (int i = 0; i < m->num_rows; ++i) { for (int k = m->i[i]; k < m->i[i + 1]; ++k) { y[i] += a * m->data[k] * x[m->j[k]]; } }
}
static void addmulT(double a, const hypre_CSRMatrix* m, const double* x, double* y)
{
    for (int i = 0; i < m->num_rows; ++i) { for (int k = m->i[i]; k < m->i[i + 1]; ++k) { y[m->j[k]] += a * m->data[k] * x[i]; } }
}
static void scale0(double beta, double* y, int n) { for (int i = 0; i < n; ++i) { y[i] = beta == 0.0 ? 0.0 : beta * y[i]; } }
static void matvec(double alpha, hypre_ParCSRMatrix* A, const double* x, double beta, double* y)
{
    auto g = ghost(A, x);
    scale0(beta, y, A->diag->num_rows);
    addmul(alpha, A->diag, x, y);
    addmul(alpha, A->offd, g.data(), y);
}
HYPRE_Int hypre_ParCSRMatrixMatvec(HYPRE_Complex alpha, hypre_ParCSRMatrix* A, hypre_ParVector* x, HYPRE_Complex beta, hypre_ParVector* y)
{
    matvec(alpha, A, x->local_vector->data, beta, y->local_vector->data);
    return 0;
}
HYPRE_Int hypre_ParCSRMatrixMatvecT(HYPRE_Complex alpha, hypre_ParCSRMatrix* A, hypre_ParVector* x, HYPRE_Complex beta, hypre_ParVector* y)
{
    need_pkg(A);
    hypre_ParCSRCommPkg* p = A->comm_pkg;
    const double* xd = x->local_vector->data;
    double* yd = y->local_vector->data;
    vector<double> s(A->offd->num_cols + 1, 0.0), r(p->send_map_starts[p->num_sends] + 1, 0.0);
    addmulT(alpha, A->offd, xd, s.data());
    scale0(beta, yd, A->diag->num_cols);
    addmulT(alpha, A->diag, xd, yd);
    hypre_ParCSRCommHandleDestroy(hypre_ParCSRCommHandleCreate(2, p, s.data(), r.data()));
    for (int k = 0; k < p->send_map_starts[p->num_sends]; ++k) { yd[p->send_map_elmts[k]] += r[k]; }
    return 0;
}
hypre_CSRMatrix* hypre_ParCSRMatrixExtractBExt(hypre_ParCSRMatrix* B, hypre_ParCSRMatrix* A, HYPRE_Int)
{
    need_pkg(A);
    hypre_ParCSRCommPkg* p = A->comm_pkg;
    if (A->last_col_diag - A->first_col_diag != B->last_row_index - B->first_row_index) { fatal("ExtractBExt: partitions differ"); }
    for (int k = 0; k < p->num_sends; ++k)
    {
        vector<double> m;
        for (int q = p->send_map_starts[k]; q < p->send_map_starts[k + 1]; ++q)
        {
            const int i = p->send_map_elmts[q];
            m.push_back(B->diag->i[i + 1] - B->diag->i[i] + B->offd->i[i + 1] - B->offd->i[i]);
            for (int e = B->diag->i[i]; e < B->diag->i[i + 1]; ++e) { m.push_back(B->diag->j[e] + B->first_col_diag); m.push_back(B->diag->data[e]); }
            for (int e = B->offd->i[i]; e < B->offd->i[i + 1]; ++e) { m.push_back(B->col_map_offd[B->offd->j[e]]); m.push_back(B->offd->data[e]); }
        }
        ranks::send(p->send_procs[k], m.data(), m.size() * sizeof(double));
    }
    vector<int> ri(1, 0), rj;
    vector<double> rx;
    for (int k = 0; k < p->num_recvs; ++k)
    {
        auto m = as<double>(ranks::recv(p->recv_procs[k]));
        size_t at = 0;
        for (int q = p->recv_vec_starts[k]; q < p->recv_vec_starts[k + 1]; ++q)
        {
            const int n = (int)m.at(at++);
            for (int e = 0; e < n; ++e) { rj.push_back((int)m.at(at++)); rx.push_back(m.at(at++)); }
            ri.push_back((int)rj.size());
        }
    }
    hypre_CSRMatrix* r = csr_create((int)ri.size() - 1, B->global_num_cols, (int)rj.size());
    r->i = hypre_CTAlloc(HYPRE_Int, ri.size());
    std::copy(ri.begin(), ri.end(), r->i);
    r->j = hypre_CTAlloc(HYPRE_Int, rj.size());
    std::copy(rj.begin(), rj.end(), r->j);
    r->data = hypre_CTAlloc(HYPRE_Complex, rx.size());
    std::copy(rx.begin(), rx.end(), r->data);
    return r;
}

// ------------------------------------------------------------------ solvers
struct hypre_Solver_struct
{
    const char* kind = "";
    double tol = 1e-6;
    int max_iter = 1000;
    HYPRE_PtrToParSolverFcn precond = nullptr, precond_setup = nullptr;
    HYPRE_Solver precond_data = nullptr;
    bool ready = false;
    int n = 0, first = 0, params = 0;
    vector<double> inv;              // dense matrix, global
    HYPRE_MatvecFunctions* mv = nullptr;
    void* op = nullptr;
    HYPRE_PtrToSolverFcn lprecond = nullptr;
    HYPRE_Solver lprecond_data = nullptr;
};
static hypre_Solver_struct& want(HYPRE_Solver s, const char* kind)
{
    if (!s || strcmp(s->kind, kind)) { fatal((std::string("not a valid solver of kind ") + kind).c_str()); }
    return *s;
}
static HYPRE_Int create(HYPRE_Solver* s, const char* kind) { *s = new hypre_Solver_struct; (*s)->kind = kind; return 0; }
static HYPRE_Int destroy(HYPRE_Solver s, const char* kind) { want(s, kind); delete s; return 0; }
static int len(HYPRE_ParVector v) { return v->local_vector->size; }
static double* data(HYPRE_ParVector v) { return v->local_vector->data; }

struct Shell                        // a distributed vector of a solver
{
    hypre_Vector l;
    hypre_ParVector v;
    vector<double> d;
    explicit Shell(HYPRE_ParVector like) : d(len(like) + 1, 0.0)
    {
        v = *like;
        l = *like->local_vector;
        l.data = d.data();
        v.local_vector = &l;
        v.owns_data = v.owns_partitioning = 0;
    }
};
static double dot(HYPRE_ParVector x, HYPRE_ParVector y) { double s = 0; for (int i = 0; i < len(x); ++i) { s += data(x)[i] * data(y)[i]; } return gsum(s); }
static void clear(HYPRE_ParVector x) { std::fill_n(data(x), len(x), 0.0); }
static void copy(HYPRE_ParVector x, HYPRE_ParVector y) { std::copy_n(data(x), len(x), data(y)); }
static void axpy(double a, HYPRE_ParVector x, HYPRE_ParVector y) { for (int i = 0; i < len(x); ++i) { data(y)[i] += a * data(x)[i]; } }

HYPRE_Int HYPRE_ParCSRPCGCreate(MPI_Comm, HYPRE_Solver* s) { return create(s, "pcg"); }
HYPRE_Int HYPRE_ParCSRPCGDestroy(HYPRE_Solver s) { return destroy(s, "pcg"); }
HYPRE_Int HYPRE_ParCSRPCGSetPrintLevel(HYPRE_Solver s, HYPRE_Int) { want(s, "pcg"); return 0; }
HYPRE_Int HYPRE_PCGSetTol(HYPRE_Solver s, HYPRE_Real t) { want(s, "pcg").tol = t; return 0; }
HYPRE_Int HYPRE_PCGSetMaxIter(HYPRE_Solver s, HYPRE_Int n) { want(s, "pcg").max_iter = n; return 0; }
HYPRE_Int HYPRE_ParCSRPCGSetPrecond(HYPRE_Solver s, HYPRE_PtrToParSolverFcn p, HYPRE_PtrToParSolverFcn q, HYPRE_Solver d)
{
    want(s, "pcg").precond = p; s->precond_setup = q; s->precond_data = d;
    return 0;
}
HYPRE_Int HYPRE_ParCSRPCGSetup(HYPRE_Solver s, HYPRE_ParCSRMatrix A, HYPRE_ParVector b, HYPRE_ParVector x)
{
    want(s, "pcg").ready = true;
    if (s->precond_setup) { s->precond_setup(s->precond_data, A, b, x); }
    return 0;
}
HYPRE_Int HYPRE_ParCSRPCGSolve(HYPRE_Solver s, HYPRE_ParCSRMatrix A, HYPRE_ParVector b, HYPRE_ParVector x)
{
    if (!want(s, "pcg").ready) { fatal("PCG has not been set up"); }
    Shell sp(b), ss(b), sr(b);
    HYPRE_ParVector p = &sp.v, t = &ss.v, r = &sr.v;
    auto C = [&](HYPRE_ParVector in, HYPRE_ParVector out) { if (s->precond) { s->precond(s->precond_data, A, in, out); } else { copy(in, out); } };
    C(b, p);
    const double bi = dot(p, b);
    if (!(bi > 0.0)) { copy(b, x); return 0; }       // hypre takes the right-hand side to be zero
    copy(b, r);
    matvec(-1.0, A, data(x), 1.0, data(r));
    clear(p);
    C(r, p);
    double gamma = dot(r, p);
    for (int i = 0; i < s->max_iter; ++i)
    {
        clear(t);
        matvec(1.0, A, data(p), 0.0, data(t));
        const double sdotp = dot(t, p);
        if (sdotp == 0.0) { break; }
        const double alpha = gamma / sdotp, old = gamma;
        axpy(alpha, p, x);
        axpy(-alpha, t, r);
        clear(t);
        C(r, t);
        gamma = dot(r, t);
        if (gamma / bi < s->tol * s->tol || gamma == 0.0) { break; }
        const double beta = gamma / old;
        for (int k = 0; k < len(p); ++k) { data(p)[k] = data(t)[k] + beta * data(p)[k]; }
    }
    return 0;
}
HYPRE_Int HYPRE_ParCSRDiagScaleSetup(HYPRE_Solver, HYPRE_ParCSRMatrix, HYPRE_ParVector, HYPRE_ParVector) { return 0; }
HYPRE_Int HYPRE_ParCSRDiagScale(HYPRE_Solver, HYPRE_ParCSRMatrix A, HYPRE_ParVector y, HYPRE_ParVector x)
{
    for (int i = 0; i < A->diag->num_rows; ++i) { data(x)[i] = data(y)[i] / A->diag->data[A->diag->i[i]]; }
    return 0;
}

// BoomerAMG stands for "a solver that needs a setup": it solves exactly
static vector<double> dense(hypre_ParCSRMatrix* A)      // global matrix, row major
{
    const int n = A->global_num_cols;
    vector<double> m((size_t)A->diag->num_rows * n, 0.0);
    for (int i = 0; i < A->diag->num_rows; ++i)
    {
        for (int k = A->diag->i[i]; k < A->diag->i[i + 1]; ++k) { m[(size_t)i * n + A->first_col_diag + A->diag->j[k]] += A->diag->data[k]; }
        for (int k = A->offd->i[i]; k < A->offd->i[i + 1]; ++k) { m[(size_t)i * n + A->col_map_offd[A->offd->j[k]]] += A->offd->data[k]; }
    }
    vector<double> r;
    for (auto& q : gatherv("dense", m.data(), m.size())) { r.insert(r.end(), q.begin(), q.end()); }
    return r;
}
static vector<double> solve_dense(vector<double> m, vector<double> b)
{
    const int n = (int)b.size();
    for (int c = 0; c < n; ++c)
    {
        int p = c;
        for (int i = c; i < n; ++i) { if (std::fabs(m[(size_t)i * n + c]) > std::fabs(m[(size_t)p * n + c])) { p = i; } }
        for (int k = 0; k < n; ++k) { std::swap(m[(size_t)p * n + k], m[(size_t)c * n + k]); }
        std::swap(b[p], b[c]);
        if (m[(size_t)c * n + c] == 0.0) { continue; }
        for (int i = 0; i < n; ++i)
        {
            if (i == c) { continue; }
            const double f = m[(size_t)i * n + c] / m[(size_t)c * n + c];
            if (f == 0.0) { continue; }
            for (int k = 0; k < n; ++k) { m[(size_t)i * n + k] -= f * m[(size_t)c * n + k]; }
            b[i] -= f * b[c];
        }
    }
    for (int i = 0; i < n; ++i) { b[i] = m[(size_t)i * n + i] == 0.0 ? 0.0 : b[i] / m[(size_t)i * n + i]; }
    return b;
}
HYPRE_Int HYPRE_BoomerAMGCreate(HYPRE_Solver* s) { return create(s, "amg"); }
HYPRE_Int HYPRE_BoomerAMGDestroy(HYPRE_Solver s) { return destroy(s, "amg"); }
HYPRE_Int HYPRE_BoomerAMGSetup(HYPRE_Solver s, HYPRE_ParCSRMatrix A, HYPRE_ParVector, HYPRE_ParVector)
{
    want(s, "amg").inv = dense(A);
    s->n = A->global_num_cols; s->first = A->first_col_diag; s->ready = true;
    return 0;
}
HYPRE_Int HYPRE_BoomerAMGSolve(HYPRE_Solver s, HYPRE_ParCSRMatrix, HYPRE_ParVector b, HYPRE_ParVector x)
{
    if (!want(s, "amg").ready) { fatal("BoomerAMG has not been set up"); }
    if (s->max_iter < 1) { return 0; }
    vector<double> g;
    for (auto& q : gatherv("amg", data(b), len(b))) { g.insert(g.end(), q.begin(), q.end()); }
    g = solve_dense(s->inv, g);
    for (int i = 0; i < len(x); ++i) { data(x)[i] = g[s->first + i]; }
    return 0;
}
#define AMGSET(name, T) HYPRE_Int HYPRE_BoomerAMGSet##name(HYPRE_Solver s, T) { want(s, "amg"); return 0; }
AMGSET(CoarsenType, HYPRE_Int) AMGSET(AggNumLevels, HYPRE_Int) AMGSET(RelaxType, HYPRE_Int) AMGSET(NumSweeps, HYPRE_Int)
AMGSET(StrongThreshold, HYPRE_Real) AMGSET(InterpType, HYPRE_Int) AMGSET(PMaxElmts, HYPRE_Int) AMGSET(MaxLevels, HYPRE_Int)
AMGSET(PrintLevel, HYPRE_Int) AMGSET(Tol, HYPRE_Real)
HYPRE_Int HYPRE_BoomerAMGSetMaxIter(HYPRE_Solver s, HYPRE_Int n) { want(s, "amg").max_iter = n; return 0; }

// ParaSails stands for "an approximate inverse that needs a setup": the inverse of the diagonal
HYPRE_Int HYPRE_ParaSailsCreate(MPI_Comm, HYPRE_Solver* s) { return create(s, "sails"); }
HYPRE_Int HYPRE_ParaSailsDestroy(HYPRE_Solver s) { return destroy(s, "sails"); }
HYPRE_Int HYPRE_ParaSailsSetup(HYPRE_Solver s, HYPRE_ParCSRMatrix A, HYPRE_ParVector, HYPRE_ParVector)
{
    want(s, "sails").inv.clear();
    for (int i = 0; i < A->diag->num_rows; ++i) { s->inv.push_back(1.0 / A->diag->data[A->diag->i[i]]); }
    s->ready = true;
    return 0;
}
HYPRE_Int HYPRE_ParaSailsSolve(HYPRE_Solver s, HYPRE_ParCSRMatrix, HYPRE_ParVector b, HYPRE_ParVector x)
{
    if (!want(s, "sails").ready) { fatal("ParaSails has not been set up"); }
    for (int i = 0; i < len(x); ++i) { data(x)[i] = s->inv.at(i) * data(b)[i]; }
    return 0;
}
HYPRE_Int HYPRE_ParaSailsSetParams(HYPRE_Solver s, HYPRE_Real, HYPRE_Int) { want(s, "sails"); return 0; }
HYPRE_Int HYPRE_ParaSailsSetFilter(HYPRE_Solver s, HYPRE_Real) { want(s, "sails"); return 0; }
HYPRE_Int HYPRE_ParaSailsSetSym(HYPRE_Solver s, HYPRE_Int) { want(s, "sails"); return 0; }
HYPRE_Int HYPRE_ParaSailsSetLoadbal(HYPRE_Solver s, HYPRE_Real) { want(s, "sails"); return 0; }
HYPRE_Int HYPRE_ParaSailsSetReuse(HYPRE_Solver s, HYPRE_Int) { want(s, "sails"); return 0; }
HYPRE_Int HYPRE_ParaSailsSetLogging(HYPRE_Solver s, HYPRE_Int) { want(s, "sails"); return 0; }

HYPRE_Int hypre_ParCSRRelax(hypre_ParCSRMatrix* A, hypre_ParVector* f, HYPRE_Int type, HYPRE_Int times, HYPRE_Real* l1,
                            HYPRE_Real w, HYPRE_Real omega, HYPRE_Real, HYPRE_Real, HYPRE_Int, HYPRE_Real, hypre_ParVector* u, hypre_ParVector* v, hypre_ParVector*)
{
    const hypre_CSRMatrix* D = A->diag;
    const int n = D->num_rows;
    for (int sweep = 0; sweep < times; ++sweep)
    {
        copy(f, v);
        if (type == 2 || type == 4)                  // block SSOR, forward then backward, off-diagonal part in the l1 norms
        {
            auto g = ghost(A, data(u));
            addmul(-1.0, A->offd, g.data(), data(v));
            const std::vector<double> u0(data(u), data(u) + n);
            for (int pass = 0; pass < 2; ++pass)
            {
                for (int q = 0; q < n; ++q)
                {
                    const int i = pass ? n - 1 - q : q;
                    double r = data(v)[i], dif = 0.0;
                    for (int k = D->i[i]; k < D->i[i + 1]; ++k)
                    {
                        const int j = D->j[k];
                        r -= D->data[k] * data(u)[j];
                        if (pass ? j > i : j < i) { dif += D->data[k] * (u0[j] - data(u)[j]); }
                    }
                    data(u)[i] += (omega * w * r + omega * (1.0 - w) * dif) / l1[i];
                }
            }
            continue;
        }
        if (type == 3)                               // Kaczmarz: l1 holds the squared norms of the rows
        {
            auto g = ghost(A, data(u));
            addmul(-1.0, A->offd, g.data(), data(v));
            for (int pass = 0; pass < 2; ++pass)
            {
                for (int q = 0; q < n; ++q)
                {
                    const int i = pass ? n - 1 - q : q;
                    double r = data(v)[i];
                    for (int k = D->i[i]; k < D->i[i + 1]; ++k) { r -= D->data[k] * data(u)[D->j[k]]; }
                    r /= l1[i];
                    for (int k = D->i[i]; k < D->i[i + 1]; ++k) { data(u)[D->j[k]] += w * r * D->data[k]; }
                }
            }
            continue;
        }
        matvec(-w, A, data(u), w, data(v));
        for (int i = 0; i < n; ++i) { data(u)[i] += data(v)[i] / (type == 1 ? l1[i] : D->data[D->i[i]]); }
    }
    return 0;
}

// ------------------------------------------------------------------ LOBPCG: exact lowest eigenpairs of the operator it is given
struct mv_MultiVector { mv_TempMultiVector t; };
mv_MultiVectorPtr mv_MultiVectorCreateFromSampleVector(void*, HYPRE_Int n, void* sample)
{
    hypre_ParVector* s = (hypre_ParVector*)sample;
    mv_MultiVector* m = new mv_MultiVector;
    m->t.numVectors = n;
    m->t.vector = hypre_CTAlloc(void*, n);
    for (int i = 0; i < n; ++i)
    {
        hypre_ParVector* v = hypre_ParVectorCreate(s->comm, s->global_size, s->partitioning);
        v->owns_partitioning = 0;
        hypre_ParVectorInitialize(v);
        m->t.vector[i] = v;
    }
    return m;
}
void* mv_MultiVectorGetData(mv_MultiVectorPtr m) { return &m->t; }
void mv_MultiVectorDestroy(mv_MultiVectorPtr m)
{
    if (!m) { return; }
    for (int i = 0; i < m->t.numVectors; ++i) { hypre_ParVectorDestroy((hypre_ParVector*)m->t.vector[i]); }
    hypre_TFree(m->t.vector);
    delete m;
}
HYPRE_Int HYPRE_ParCSRSetupInterpreter(mv_InterfaceInterpreter*) { return 0; }
HYPRE_Int HYPRE_ParCSRSetupMatvec(HYPRE_MatvecFunctions* f) { f->Matvec = nullptr; f->MatvecCreate = nullptr; f->MatvecDestroy = nullptr; return 0; }
HYPRE_Int HYPRE_LOBPCGCreate(mv_InterfaceInterpreter*, HYPRE_MatvecFunctions* f, HYPRE_Solver* s) { create(s, "lobpcg"); (*s)->mv = f; return 0; }
HYPRE_Int HYPRE_LOBPCGDestroy(HYPRE_Solver s) { return destroy(s, "lobpcg"); }
HYPRE_Int HYPRE_LOBPCGSetup(HYPRE_Solver s, HYPRE_Matrix A, HYPRE_Vector, HYPRE_Vector) { want(s, "lobpcg").op = A; s->ready = true; return 0; }
HYPRE_Int HYPRE_LOBPCGSetPrintLevel(HYPRE_Solver s, HYPRE_Int) { want(s, "lobpcg"); return 0; }
HYPRE_Int HYPRE_LOBPCGSetPrecond(HYPRE_Solver s, HYPRE_PtrToSolverFcn p, HYPRE_PtrToSolverFcn, HYPRE_Solver d)
{
    want(s, "lobpcg").lprecond = p; s->lprecond_data = d;
    return 0;
}
HYPRE_Int HYPRE_LOBPCGSolve(HYPRE_Solver s, mv_MultiVectorPtr, mv_MultiVectorPtr vs, HYPRE_Real* vals)
{
    if (!want(s, "lobpcg").ready) { fatal("LOBPCG has not been set up"); }
    const int m = vs->t.numVectors;
    if (m == 0) { return 0; }
    hypre_ParVector* like = (hypre_ParVector*)vs->t.vector[0];
    const int n = like->global_size, first = like->first_index;
    Shell sx(like), sy(like);
    vector<double> M((size_t)n * n, 0.0), V((size_t)n * n, 0.0);
    for (int c = 0; c < n; ++c)
    {
        clear(&sx.v);
        if (c >= first && c < first + len(like)) { sx.d[c - first] = 1.0; }
        std::fill(sy.d.begin(), sy.d.end(), 777.0);                         // beta = 0: previous contents do not count
        s->mv->Matvec(nullptr, 1.0, s->op, &sx.v, 0.0, &sy.v);
        vector<double> g;
        for (auto& q : gatherv("lobpcg", sy.d.data(), len(like))) { g.insert(g.end(), q.begin(), q.end()); }
        for (int i = 0; i < n; ++i) { M[(size_t)i * n + c] = g[i]; }
        if (s->lprecond) { clear(&sy.v); s->lprecond(s->lprecond_data, (HYPRE_Matrix)s->op, (HYPRE_Vector)&sx.v, (HYPRE_Vector)&sy.v); }
    }
    for (int i = 0; i < n; ++i) { V[(size_t)i * n + i] = 1.0; }
    for (int sweep = 0; sweep < 60; ++sweep)                                // Jacobi rotations
    {
        for (int p = 0; p < n; ++p)
        {
            for (int q = p + 1; q < n; ++q)
            {
                const double apq = M[(size_t)p * n + q];
                if (std::fabs(apq) < 1e-300) { continue; }
                const double th = (M[(size_t)q * n + q] - M[(size_t)p * n + p]) / (2 * apq);
                const double t = (th >= 0 ? 1.0 : -1.0) / (std::fabs(th) + std::sqrt(th * th + 1)), c = 1 / std::sqrt(t * t + 1), sn = t * c;
                for (int k = 0; k < n; ++k)
                {
                    const double a = M[(size_t)k * n + p], b = M[(size_t)k * n + q];
                    M[(size_t)k * n + p] = c * a - sn * b; M[(size_t)k * n + q] = sn * a + c * b;
                }
                for (int k = 0; k < n; ++k)
                {
                    const double a = M[(size_t)p * n + k], b = M[(size_t)q * n + k];
                    M[(size_t)p * n + k] = c * a - sn * b; M[(size_t)q * n + k] = sn * a + c * b;
                    const double x = V[(size_t)k * n + p], y = V[(size_t)k * n + q];
                    V[(size_t)k * n + p] = c * x - sn * y; V[(size_t)k * n + q] = sn * x + c * y;
                }
            }
        }
    }
    vector<int> o(n);
    std::iota(o.begin(), o.end(), 0);
    std::stable_sort(o.begin(), o.end(), [&](int a, int b) { return M[(size_t)a * n + a] < M[(size_t)b * n + b]; });
    for (int e = 0; e < m && e < n; ++e)
    {
        vals[e] = M[(size_t)o[e] * n + o[e]];
        hypre_ParVector* v = (hypre_ParVector*)vs->t.vector[e];
        for (int i = 0; i < len(v); ++i) { data(v)[i] = V[(size_t)(first + i) * n + o[e]]; }
    }
    return 0;
}
