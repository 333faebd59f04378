// Argument parser, timer, partitioning.
#include "core_kinds.hpp"
#include "partition.hpp"
#include <algorithm>
#include <charconv>
#include <time.h>
#include <sys/time.h>
#include <unistd.h>
#include <sys/syscall.h>

// ------------------------------------------------------------------ argument parser
static std::vector<std::string> rows_of(const std::string& s)
{
    std::vector<std::string> r;
    std::string cur;
    for (char c : s) { if (c == '\n') { r.push_back(cur); cur.clear(); } else { cur += c; } }
    if (!cur.empty()) { r.push_back(cur); }
    return r;
}
static std::string trim(const std::string& s)
{
    size_t b = s.find_first_not_of(" \t\r"), e = s.find_last_not_of(" \t\r");
    return b == std::string::npos ? "" : s.substr(b, e - b + 1);
}
// columns separated by two or more blanks
static std::vector<std::string> columns(const std::string& s)
{
    std::vector<std::string> r;
    std::string t = trim(s);
    size_t i = 0;
    while (i <= t.size())
    {
        size_t k = t.find("  ", i);
        if (k == std::string::npos) { k = t.size(); }
        r.push_back(t.substr(i, k - i));
        i = k;
        while (i < t.size() && t[i] == ' ') { ++i; }
        if (i >= t.size()) { break; }
    }
    return r;
}
// a heading is any first line that does not mention a flag
static J table_of(const std::string& text, std::function<J(const std::string&)> f)
{
    J r = J::arr();
    std::vector<std::string> ls = rows_of(text);
    for (size_t i = 0; i < ls.size(); ++i)
    {
        const std::string t = trim(ls[i]);
        if (t.empty() || (i == 0 && t[0] != '-')) { continue; }
        r.push(f(t));
    }
    return r;
}
static J strs(const std::vector<std::string>& v) { J r = J::arr(); for (const auto& x : v) { r.push(J(x)); } return r; }
template <> struct Traits<ArgParser>
{
    TRAITS_COMMON
    static const char* kind() { return "ap"; }
    static J proj(ArgParser& p)
    {
        J r = J::obj();
        r.set("k", "ap");
        r.set("good", J(p.IsGood() ? 1 : 0));
        std::stringstream e, o, h;
        p.ShowErrors(e);
        p.ShowOptions(o);
        p.ShowHelp(h);
        r.set("err", table_of(e.str(), [](const std::string& t) { return J(t.substr(0, t.find(' '))); }));
        r.set("opt", table_of(o.str(), [](const std::string& t) { std::vector<std::string> c = columns(t); if (c.size() == 2) { c.push_back(""); } return strs(c); }));
        r.set("help", table_of(h.str(), [](const std::string& t)
        {
            size_t k = t.find(' ');
            return strs({t.substr(0, k), k == std::string::npos ? "" : trim(t.substr(k))});
        }));
        return r;
    }
};
OP("ap.new")
{
    if (S(a, "form") == "default") { P(a, "z", ArgParser()); NONE; }
    std::vector<std::string> toks(1, "program");
    for (const auto& t : a["argv"].a) { toks.push_back(t["s"].s); }
    std::vector<const char*> av;
    for (const auto& t : toks) { av.push_back(t.c_str()); }
    {
        ArgParser p((int)av.size(), av.data());
        for (auto& t : toks) { t = "XXXX"; }             // nothing may refer to the caller's arguments afterwards
        P(a, "z", std::move(p));
    }
    NONE;
}
OP("ap.parse")
{
    const ArgParser& p = G<ArgParser>(a, "x");
    const std::string& ty = S(a, "ty");
    const std::string& fl = S(a, "flag");
    const std::string& d = S(a, "def");
    const std::string help = a.has("help") ? S(a, "help") : "";
    const bool nohelp = !a.has("help");
    std::string r;
    if (ty == "bool")
    {
        bool v = d == "true";
        if (nohelp) { p.Parse(v, fl); } else { p.Parse(v, fl, help); }
        r = v ? "true" : "false";
    }
    else if (ty == "int")
    {
        int v = atoi(d.c_str());
        if (nohelp) { p.Parse(v, fl); } else { p.Parse(v, fl, help); }
        r = std::to_string(v);
    }
    else if (ty == "dbl")
    {
        double v = strtod(d.c_str(), nullptr);
        if (nohelp) { p.Parse(v, fl); } else { p.Parse(v, fl, help); }
        char b[64];
        auto e = std::to_chars(b, b + sizeof b, v);
        r.assign(b, e.ptr);
    }
    else if (ty == "str")
    {
        std::string v = d;
        if (nohelp) { p.Parse(v, fl); } else { p.Parse(v, fl, help); }
        r = v;
    }
    else { throw std::logic_error("script: ap.parse"); }
    return J(r);
}
// the listings go to the stream they were asked for (standard output by default)
OP("ap.show")
{
    const ArgParser& p = G<ArgParser>(a, "x");
    const std::string& f = S(a, "form");
    std::stringstream other, so;
    std::streambuf* old = std::cout.rdbuf(so.rdbuf());
    const auto flags = other.flags();
    const auto precision = other.precision();
    if (f == "options") { p.ShowOptions(other); p.ShowOptions(); }
    else if (f == "errors") { p.ShowErrors(other); p.ShowErrors(); }
    else { p.ShowHelp(other); p.ShowHelp(); }
    std::cout.rdbuf(old);
    return J(other.str() == so.str() && other.flags() == flags && other.precision() == precision ? 1 : 0);
}

// ------------------------------------------------------------------ timer
// The clocks are under the control of the script: `now` is the time that really passed, `skew` how far the wall clock was set.
static bool vclock = false;
static long long vnow = 1000000000LL * 1000, vskew = 0;
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) noexcept
{
    if (!vclock) { return (int)syscall(SYS_clock_gettime, id, ts); }
    long long t = vnow;
    if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) { t += 1700000000LL * 1000000000LL + vskew; }
    else if (id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID) { return (int)syscall(SYS_clock_gettime, id, ts); }
    ts->tv_sec = t / 1000000000LL;
    ts->tv_nsec = t % 1000000000LL;
    return 0;
}
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
extern "C" time_t time(time_t* p) noexcept
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (p) { *p = ts.tv_sec; }
    return ts.tv_sec;
}
struct Virtual { Virtual() { vclock = true; } ~Virtual() { vclock = false; } };

static J us(double s)                  // seconds -> whole microseconds
{
    if (!(std::fabs(s) < 2000.0)) { return J((long long)S_BIG); }
    const double w = s * 1e6, q = std::floor(w + 0.5);
    return std::fabs(w - q) < 1e-2 ? J((long long)q) : J((long long)S_FRAC);
}
struct TimerBox
{
    Timer t;
    int clicks = 0;                    // how many intervals may be asked for
    explicit TimerBox(Timer x, int c) : t(x), clicks(c) {}
};
template <> struct Traits<TimerBox>
{
    TRAITS_COMMON
    static const char* kind() { return "tm"; }
    static J proj(TimerBox& b)
    {
        Virtual v;
        const Timer& t = b.t;
        J r = J::obj();
        r.set("k", "tm");
        r.set("tot", us(t.TotalTime()));
        J iv = J::arr();
        for (int i = 0; i + 1 < b.clicks; ++i) { iv.push(us(t[i])); }
        r.set("iv", iv);
        return r;
    }
};
OP("tm.new")
{
    Virtual v;
    const std::string& f = S(a, "form");
    if (f == "default") { P(a, "z", TimerBox(Timer(), 0)); }
    else if (f == "false") { P(a, "z", TimerBox(Timer(Timer::Start::False), 0)); }
    else { P(a, "z", TimerBox(Timer(Timer::Start::True), 1)); }
    NONE;
}
OP("tm.click") { Virtual v; TimerBox& b = G<TimerBox>(a, "x"); b.t.Click(); ++b.clicks; NONE; }
OP("tm.wait") { vnow += 1000LL * I(a, "us"); NONE; }
OP("tm.setclock") { vskew += 1000LL * I(a, "us"); NONE; }
OP("tm.read")
{
    Virtual v;
    const Timer& t = G<TimerBox>(a, "x").t;
    return S(a, "form") == "tot" ? us(t.TotalTime()) : us(t[I(a, "i")]);
}

// ------------------------------------------------------------------ partitioning
// The question that reaches the partitioner, and its answer before the module renumbers it (linked with --wrap).
struct Asked { bool yes = false; J q; };
static Asked asked;
extern "C" int __real_METIS_PartGraphKway(idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, real_t*, real_t*, idx_t*, idx_t*, idx_t*);
extern "C" int __wrap_METIS_PartGraphKway(idx_t* nvtxs, idx_t* ncon, idx_t* xadj, idx_t* adjncy, idx_t* vwgt, idx_t* vsize, idx_t* adjwgt, idx_t* nparts,
                                          real_t* tpwgts, real_t* ubvec, idx_t* options, idx_t* objval, idx_t* part)
{
    const long long n = *nvtxs, m = xadj[n];
    J q = J::arr();
    J xs = J::arr(), as = J::arr(), ws = J::arr(), raw = J::arr();
    for (long long i = 0; i <= n; ++i) { xs.push(J((long long)xadj[i])); }
    bool plain = true;                                          // every vertex counts the same
    for (long long i = 0; i < n; ++i) { plain = plain && (!vwgt || vwgt[i] == vwgt[0]); }
    for (long long k = 0; k < m; ++k) { as.push(J((long long)adjncy[k])); ws.push(J((long long)(adjwgt ? adjwgt[k] : 1))); }
    const int contig = options && options[METIS_OPTION_CONTIG] == 1 ? 1 : 0;
    q.push(xs); q.push(as); q.push(ws);
    q.push(J((long long)*nparts));
    q.push(J((long long)(ubvec ? std::lround(*ubvec * 1000) : 0)));
    q.push(J((long long)contig));
    q.push(J((long long)(plain && *ncon == 1 && !tpwgts ? 1 : 0)));
    const int rc = __real_METIS_PartGraphKway(nvtxs, ncon, xadj, adjncy, vwgt, vsize, adjwgt, nparts, tpwgts, ubvec, options, objval, part);
    for (long long i = 0; i < n; ++i) { raw.push(J((long long)part[i])); }
    q.push(raw);
    asked.yes = true;
    asked.q = q;
    return rc;
}
OPT("pt.part")
{
    const SparseMatrix<T>& A = G<SparseMatrix<T>>(a, "A");
    const std::string& f = S(a, "form");
    std::vector<int> p;
    asked = Asked();
    if (f == "all") { p = Partition(A, I(a, "n"), (double)a["ub"].i / 4.0, B(a, "contig"), B(a, "weighted")); }
    else if (f == "contig") { p = Partition(A, I(a, "n"), (double)a["ub"].i / 4.0, B(a, "contig")); }
    else if (f == "ub") { p = Partition(A, I(a, "n"), (double)a["ub"].i / 4.0); }
    else if (f == "n") { p = Partition(A, I(a, "n")); }
    else { p = Partition(A); }
    J r = J::arr();
    r.push(ints(p));
    if (asked.yes) { r.push(asked.q); }
    return r;
}
OPT("pt.adj")
{
    const SparseMatrix<T>& A = G<SparseMatrix<T>>(a, "A");
    auto t = B(a, "dflt") ? MakeAdjacencyInfo<T, int>(A) : MakeAdjacencyInfo<T, int>(A, B(a, "weighted"));
    J r = J::arr();
    r.push(ints(std::get<0>(t)));
    r.push(ints(std::get<1>(t)));
    r.push(ints(std::get<2>(t)));
    return r;
}
OP("pt.removeempty") { std::vector<int> p = IV(a, "v"); RemoveEmpty(p); return ints(p); }
