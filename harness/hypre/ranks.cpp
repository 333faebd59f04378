#include "ranks.hpp"
#include "hypre_defs.h"
#include <condition_variable>
#include <deque>
#include <map>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <thread>

namespace ranks
{
struct Abort {};
struct Coll { std::string what; long long sig = 0; int got = 0, read = 0; bool bad = false; std::vector<std::vector<char>> data; };
struct World
{
    int P = 0, finished = 0;
    std::mutex m;
    std::condition_variable cv;
    std::vector<const std::function<bool()>*> waiting;
    std::map<std::pair<int, int>, std::deque<std::vector<char>>> box;
    std::map<long, Coll> colls;
    bool aborted = false;
    std::exception_ptr err;
    std::string why;
};
static thread_local World* W = nullptr;
static thread_local int me = -1;
static thread_local long seq = 0;

static void stuck(World& w)
{
    if (w.aborted || (int)w.waiting.size() + w.finished < w.P || w.waiting.empty()) { return; }
    for (auto* p : w.waiting) { if ((*p)()) { return; } }
    w.aborted = true;
    w.why = "ranks deadlock: a collective or message that not every rank takes part in";
    w.cv.notify_all();
}
static void wait(std::unique_lock<std::mutex>& l, const std::function<bool()>& pred)
{
    World& w = *W;
    if (!w.aborted && pred()) { return; }
    w.waiting.push_back(&pred);
    stuck(w);
    w.cv.wait(l, [&] { return w.aborted || pred(); });
    w.waiting.erase(std::find(w.waiting.begin(), w.waiting.end(), &pred));
    if (w.aborted) { throw Abort(); }
}

void run(int P, const std::function<void(int)>& f)
{
    if (W) { throw std::logic_error("script: nested ranks"); }
    World w;
    w.P = P;
    std::vector<std::thread> ts;
    for (int r = 0; r < P; ++r)
    {
        ts.emplace_back([&w, &f, r]
        {
            W = &w; me = r; seq = 0;
            try { f(r); }
            catch (const Abort&) {}
            catch (...)
            {
                std::lock_guard<std::mutex> l(w.m);
                if (!w.err) { w.err = std::current_exception(); }
                w.aborted = true;
                w.cv.notify_all();
            }
            std::lock_guard<std::mutex> l(w.m);
            ++w.finished;
            stuck(w);
            W = nullptr; me = -1;
        });
    }
    for (auto& t : ts) { t.join(); }
    if (w.err) { std::rethrow_exception(w.err); }
    if (w.aborted) { throw std::runtime_error(w.why); }
    for (auto& b : w.box) { if (!b.second.empty()) { throw std::runtime_error("a message was never received"); } }
}
static World& world()
{
    if (!W) { fprintf(stderr, "MPI used outside of the ranks\n"); abort(); }
    return *W;
}
int size() { return world().P; }
int rank() { world(); return me; }

std::vector<std::vector<char>> gather(const char* what, long long sig, const void* p, size_t bytes)
{
    World& w = world();
    std::unique_lock<std::mutex> l(w.m);
    const long s = seq++;
    Coll& c = w.colls[s];
    if (c.data.empty()) { c.data.resize(w.P); c.what = what; c.sig = sig; }
    if (c.what != what || c.sig != sig) { c.bad = true; }
    c.data[me].assign((const char*)p, (const char*)p + bytes);
    ++c.got;
    w.cv.notify_all();
    wait(l, [&] { return c.got == w.P; });
    if (c.bad)
    {
        w.aborted = true;
        w.why = "ranks disagree on the collective they take part in";
        w.cv.notify_all();
        throw Abort();
    }
    auto r = c.data;
    if (++c.read == w.P) { w.colls.erase(s); }
    return r;
}
void send(int to, const void* p, size_t bytes)
{
    World& w = world();
    std::lock_guard<std::mutex> l(w.m);
    if (to < 0 || to >= w.P) { fprintf(stderr, "message to rank %d\n", to); abort(); }
    w.box[{me, to}].emplace_back((const char*)p, (const char*)p + bytes);
    w.cv.notify_all();
}
std::vector<char> recv(int from)
{
    World& w = world();
    std::unique_lock<std::mutex> l(w.m);
    auto& q = w.box[{from, me}];
    wait(l, [&] { return !q.empty(); });
    auto r = std::move(q.front());
    q.pop_front();
    return r;
}
}

// ------------------------------------------------------------------ MPI
static void check_comm(MPI_Comm c) { if (c != MPI_COMM_WORLD) { fprintf(stderr, "invalid communicator %d\n", c); abort(); } }
int MPI_Comm_size(MPI_Comm c, int* n) { check_comm(c); *n = ranks::size(); return MPI_SUCCESS; }
int MPI_Comm_rank(MPI_Comm c, int* r) { check_comm(c); *r = ranks::rank(); return MPI_SUCCESS; }
static size_t width(MPI_Datatype t)
{
    if (t == MPI_INT) { return sizeof(int); }
    if (t == MPI_DOUBLE) { return sizeof(double); }
    fprintf(stderr, "invalid datatype\n");
    abort();
}
template <class T> static T combine(T a, T b, MPI_Op op)
{
    switch (op)
    {
        case MPI_SUM: return a + b;
        case MPI_MAX: return a < b ? b : a;
        case MPI_MIN: return b < a ? b : a;
        case MPI_PROD: return a * b;
        case MPI_LAND: return T(a != T(0) && b != T(0));
        case MPI_LOR: return T(a != T(0) || b != T(0));
    }
    fprintf(stderr, "invalid operation\n");
    abort();
}
template <class T> static void reduce(const std::vector<std::vector<char>>& g, int first, int last, void* out, int n, MPI_Op op)
{
    T* o = (T*)out;
    for (int r = first; r < last; ++r)
    {
        const T* x = (const T*)g[r].data();
        for (int i = 0; i < n; ++i) { o[i] = r == first ? x[i] : combine(o[i], x[i], op); }
    }
}
static void reduce(MPI_Datatype t, const std::vector<std::vector<char>>& g, int first, int last, void* out, int n, MPI_Op op)
{
    if (t == MPI_INT) { reduce<int>(g, first, last, out, n, op); } else { reduce<double>(g, first, last, out, n, op); }
}
static long long sig(int n, MPI_Datatype t, MPI_Op op, int root) { return (((long long)n * 8 + t) * 8 + op) * 64 + root; }
int MPI_Allreduce(const void* s, void* d, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{
    check_comm(c);
    if (s == MPI_IN_PLACE) { s = d; }
    reduce(t, ranks::gather("Allreduce", sig(n, t, op, 0), s, n * width(t)), 0, ranks::size(), d, n, op);
    return MPI_SUCCESS;
}
int MPI_Reduce(const void* s, void* d, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c)
{
    check_comm(c);
    auto g = ranks::gather("Reduce", sig(n, t, op, root), s, n * width(t));
    if (ranks::rank() == root) { reduce(t, g, 0, ranks::size(), d, n, op); }
    return MPI_SUCCESS;
}
int MPI_Scan(const void* s, void* d, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{
    check_comm(c);
    if (s == MPI_IN_PLACE) { s = d; }
    reduce(t, ranks::gather("Scan", sig(n, t, op, 0), s, n * width(t)), 0, ranks::rank() + 1, d, n, op);
    return MPI_SUCCESS;
}
int MPI_Exscan(const void* s, void* d, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{
    check_comm(c);
    if (s == MPI_IN_PLACE) { s = d; }
    reduce(t, ranks::gather("Exscan", sig(n, t, op, 0), s, n * width(t)), 0, ranks::rank(), d, n, op);
    return MPI_SUCCESS;
}
int MPI_Bcast(void* d, int n, MPI_Datatype t, int root, MPI_Comm c)
{
    check_comm(c);
    if (root < 0 || root >= ranks::size()) { fprintf(stderr, "invalid root\n"); abort(); }
    auto g = ranks::gather("Bcast", sig(n, t, 0, root), d, n * width(t));
    if (n) { memcpy(d, g[root].data(), n * width(t)); }
    return MPI_SUCCESS;
}
int MPI_Allgather(const void* s, int n, MPI_Datatype t, void* d, int, MPI_Datatype, MPI_Comm c)
{
    check_comm(c);
    auto g = ranks::gather("Allgather", sig(n, t, 0, 0), s, n * width(t));
    for (size_t r = 0; r < g.size(); ++r) { memcpy((char*)d + r * n * width(t), g[r].data(), n * width(t)); }
    return MPI_SUCCESS;
}
int MPI_Allgatherv(const void* s, int n, MPI_Datatype t, void* d, const int* counts, const int* displs, MPI_Datatype, MPI_Comm c)
{
    check_comm(c);
    auto g = ranks::gather("Allgatherv", t, s, n * width(t));
    for (size_t r = 0; r < g.size(); ++r)
    {
        if (g[r].size() != counts[r] * width(t)) { fprintf(stderr, "counts disagree\n"); abort(); }
        if (!g[r].empty()) { memcpy((char*)d + displs[r] * width(t), g[r].data(), g[r].size()); }
    }
    return MPI_SUCCESS;
}
int MPI_Gather(const void* s, int n, MPI_Datatype t, void* d, int, MPI_Datatype, int root, MPI_Comm c)
{
    check_comm(c);
    auto g = ranks::gather("Gather", sig(n, t, 0, root), s, n * width(t));
    if (ranks::rank() != root || n == 0) { return MPI_SUCCESS; }
    for (size_t r = 0; r < g.size(); ++r) { memcpy((char*)d + r * n * width(t), g[r].data(), n * width(t)); }
    return MPI_SUCCESS;
}
int MPI_Send(const void* s, int n, MPI_Datatype t, int dest, int, MPI_Comm c)
{
    check_comm(c);
    ranks::send(dest, s, n * width(t));
    return MPI_SUCCESS;
}
int MPI_Recv(void* d, int n, MPI_Datatype t, int source, int, MPI_Comm c, MPI_Status*)
{
    check_comm(c);
    auto x = ranks::recv(source);
    if (x.size() > n * width(t)) { fprintf(stderr, "message truncated\n"); abort(); }
    if (!x.empty()) { memcpy(d, x.data(), x.size()); }
    return MPI_SUCCESS;
}
int MPI_Barrier(MPI_Comm c) { check_comm(c); ranks::gather("Barrier", 0, nullptr, 0); return MPI_SUCCESS; }
