// Files: readers, writers, round trips.  A file slot shows what is on disk, decoded here independently of the library.
#include "core_kinds.hpp"
#include <fstream>
#include <cstdlib>
#include <cstring>
#include <unistd.h>

struct DiskFile
{
    std::string path, fmt, t;
    int sym = 0;
    bool bad = false;
    DiskFile() {}
    DiskFile(DiskFile&& o) : path(std::move(o.path)), fmt(o.fmt), t(o.t), sym(o.sym), bad(o.bad) { o.path.clear(); }
    DiskFile(const DiskFile&) = delete;
    ~DiskFile() { if (!path.empty()) { unlink(path.c_str()); } }
};
static int file_count = 0;
static std::string fresh_path() { return env->scratch + "/f" + std::to_string(++file_count); }
static std::string slurp(const std::string& p)
{
    std::ifstream f(p.c_str(), std::ios::binary);
    std::stringstream ss;
    ss << f.rdbuf();
    return ss.str();
}
static std::vector<std::string> lines_of(const std::string& s)
{
    std::vector<std::string> r;
    std::string cur;
    for (char c : s) { if (c == '\n') { r.push_back(cur); cur.clear(); } else { cur += c; } }
    if (!cur.empty()) { r.push_back(cur); }
    return r;
}
static std::vector<std::string> words_of(const std::string& s)
{
    std::vector<std::string> r;
    std::string cur;
    for (char c : s) { if (c == ' ' || c == '\t' || c == '\r') { if (!cur.empty()) { r.push_back(cur); cur.clear(); } } else { cur += c; } }
    if (!cur.empty()) { r.push_back(cur); }
    return r;
}
static J num(const std::string& w, bool scaled)
{
    char* e = nullptr;
    const double v = strtod(w.c_str(), &e);
    if (w.empty() || *e) { return J((long long)S_FRAC); }
    if (scaled) { return sc(v); }
    if (v != std::floor(v) || std::fabs(v) > 1e9) { return J((long long)S_FRAC); }
    return J((long long)v);
}
struct Raw
{
    const std::string& s; size_t o = 0;
    template <class T> bool get(T& v) { if (o + sizeof v > s.size()) { return false; } memcpy(&v, s.data() + o, sizeof v); o += sizeof v; return true; }
};
template <class T> static bool raw_list(Raw& q, size_t n, J& out, bool scaled)
{
    if (n > q.s.size()) { return false; }
    for (size_t i = 0; i < n; ++i) { T v; if (!q.get(v)) { return false; } out.push(scaled ? sc(v) : J((long long)v)); }
    return true;
}
static J broken(J r) { r.set("c", J::arr()); r.set("bad", 2); return r; }

template <> struct Traits<DiskFile>
{
    static constexpr bool copyable = false, assignable = false, swappable = false, movable = false;
    static const char* kind() { return "file"; }
    static J proj(DiskFile& f)
    {
        J r = J::obj();
        r.set("k", "file"); r.set("fmt", f.fmt); r.set("t", f.t); r.set("sym", f.sym); r.set("bad", f.bad ? 1 : 0);
        J c = J::arr();
        if (f.bad) { r.set("c", c); return r; }
        const std::string s = slurp(f.path);
        if (f.fmt == "binv" || f.fmt == "binm")
        {
            Raw q{s};
            size_t n, m, z;
            J v = J::arr();
            if (f.fmt == "binv")
            {
                if (!q.get(n)) { return broken(r); }
                if (!(f.t == "i" ? raw_list<int>(q, n, v, true) : raw_list<double>(q, n, v, true)) || q.o != s.size()) { return broken(r); }
                c.push(v);
            }
            else
            {
                J p = J::arr(), j = J::arr();
                if (!q.get(n) || !q.get(m) || !q.get(z)) { return broken(r); }
                if (!raw_list<int>(q, n + 1, p, false) || !raw_list<int>(q, z, j, false)) { return broken(r); }
                if (!(f.t == "i" ? raw_list<int>(q, z, v, true) : raw_list<double>(q, z, v, true)) || q.o != s.size()) { return broken(r); }
                c.push(J::arr().push(J((long long)n))); c.push(J::arr().push(J((long long)m))); c.push(p); c.push(j); c.push(v);
            }
            r.set("c", c);
            return r;
        }
        const auto ls = lines_of(s);
        if (f.fmt == "text")
        {
            J v = J::arr();
            for (const auto& l : ls) { for (const auto& w : words_of(l)) { v.push(num(w, true)); } }
            c.push(v);
        }
        else if (f.fmt == "csr")
        {
            std::vector<std::string> w;
            for (const auto& l : ls) { for (const auto& x : words_of(l)) { w.push_back(x); } }
            if (w.size() < 3) { return broken(r); }
            const long n = atol(w[0].c_str());
            if (n < 0 || w.size() < (size_t)n + 3) { return broken(r); }
            const long nnz = (w.size() - 3 - n) / 2;
            J p = J::arr(), j = J::arr(), x = J::arr();
            size_t o = 2;
            for (long i = 0; i <= n; ++i) { p.push(num(w[o++], false)); }
            for (long i = 0; i < nnz; ++i) { j.push(num(w[o++], false)); }
            for (long i = 0; i < nnz; ++i) { x.push(num(w[o++], true)); }
            if (o != w.size()) { return broken(r); }
            c.push(J::arr().push(num(w[0], false))); c.push(J::arr().push(num(w[1], false))); c.push(p); c.push(j); c.push(x);
        }
        else
        {
            const bool mtx = f.fmt == "mtx" || f.fmt == "mtxl";
            bool banner = !mtx, head = !mtx;
            int sym = 0;
            for (const auto& l : ls)
            {
                const auto w = words_of(l);
                if (mtx && !l.empty() && l[0] == '%')
                {
                    if (!banner && w.size() >= 5) { sym = w.back() == "symmetric"; }
                    banner = true;
                    continue;
                }
                if (w.empty() && f.fmt != "table") { continue; }
                J v = J::arr();
                for (size_t k = 0; k < w.size(); ++k) { v.push(num(w[k], head && k == 2 && (f.fmt == "coo" || f.fmt == "mtx"))); }
                head = true;
                c.push(v);
            }
            if (mtx) { r.set("sym", sym); }
        }
        r.set("c", c);
        return r;
    }
};

// ------------------------------------------------------------------ writing a file by hand
static std::string val_text(long long scaled, const std::string& style)
{
    char b[64];
    const double v = (double)scaled / (double)env->F;
    if (v == std::floor(v))
    {
        if (style == "exp") { snprintf(b, sizeof b, "%.17e", v); }
        else if (style == "dot") { snprintf(b, sizeof b, "%.1f", v); }
        else { snprintf(b, sizeof b, "%lld", (long long)v); }
    }
    else { snprintf(b, sizeof b, style == "exp" ? "%.17e" : "%.10f", v); }
    return b;
}
OP("file.put")
{
    DiskFile f;
    f.path = fresh_path();
    f.fmt = S(a, "fmt");
    f.t = S(a, "t");
    f.sym = I(a, "sym");
    const std::string style = f.t == "i" ? "plain" : S(a, "num");
    const std::string sep = S(a, "sep") == "tab" ? "\t" : S(a, "sep") == "wide" ? "   " : " ";
    const J& c = a["c"];
    {
        std::ofstream o(f.path.c_str(), std::ios::binary);
        auto ints_ = [&](const J& l) { std::string s; for (size_t k = 0; k < l.a.size(); ++k) { s += (k ? sep : "") + std::to_string(l.a[k].i); } return s; };
        const bool last_nl = I(a, "nl") != 0;
        std::vector<std::string> out;
        if (f.fmt == "binv" || f.fmt == "binm")
        {
            auto w = [&](const void* p, size_t n) { o.write((const char*)p, n); };
            auto data = [&](const J& l) { for (const auto& x : l.a) { if (f.t == "i") { int v = (int)env->un(x); w(&v, sizeof v); } else { double v = env->un(x); w(&v, sizeof v); } } };
            if (f.fmt == "binv") { size_t n = c.a[0].a.size(); w(&n, sizeof n); data(c.a[0]); }
            else
            {
                size_t h[3] = {(size_t)c.a[0].a[0].i, (size_t)c.a[1].a[0].i, c.a[3].a.size()};
                w(h, sizeof h);
                for (int q = 2; q < 4; ++q) { for (const auto& x : c.a[q].a) { int v = (int)x.i; w(&v, sizeof v); } }
                data(c.a[4]);
            }
        }
        else
        {
            if (f.fmt == "text")
            {
                std::string line;
                int k = 0;
                for (const auto& x : c.a[0].a)
                {
                    line += (line.empty() ? "" : sep) + val_text(x.i, style);
                    if (++k % 3 == 0 || S(a, "sep") == "tab") { out.push_back(line); line.clear(); }
                }
                if (!line.empty()) { out.push_back(line); }
            }
            else if (f.fmt == "csr")
            {
                for (int q = 0; q < 4; ++q) { for (const auto& x : c.a[q].a) { out.push_back(std::to_string(x.i)); } }
                for (const auto& x : c.a[4].a) { out.push_back(val_text(x.i, style)); }
            }
            else
            {
                const bool mtx = f.fmt == "mtx" || f.fmt == "mtxl";
                if (mtx && I(a, "banner"))
                {
                    out.push_back(std::string("%%MatrixMarket matrix coordinate ") + (f.fmt == "mtxl" ? "pattern" : f.t == "i" ? "integer" : "real") + (f.sym ? " symmetric" : " general"));
                    for (int q = 1; q < I(a, "banner"); ++q) { out.push_back(q == 2 ? "%" : "% comment " + std::to_string(q)); }
                }
                bool head = !mtx;
                for (const auto& l : c.a)
                {
                    if (head && (f.fmt == "coo" || f.fmt == "mtx")) { out.push_back(std::to_string(l.a[0].i) + sep + std::to_string(l.a[1].i) + sep + val_text(l.a[2].i, style)); }
                    else { out.push_back(ints_(l)); }
                    head = true;
                }
            }
            // white space around the entries carries no meaning
            const std::string lead = S(a, "sep") == "pad" ? "  " : "", trail = S(a, "sep") == "pad" ? " " : S(a, "sep") == "crlf" ? "\r" : "";
            for (auto& l : out) { if (!l.empty() && l[0] != '%') { l = lead + l + trail; } }
            for (size_t k = 0; k < out.size(); ++k) { o << out[k]; if (last_nl || k + 1 < out.size()) { o << "\n"; } }
        }
    }
    env->put(S(a, "z"), std::unique_ptr<Obj>(new Hold<DiskFile>(std::move(f))));
    NONE;
}

// cuts the file short: binary formats after `keep` bytes (of the total, modulo), compressed rows before a token
OP("file.trunc")
{
    DiskFile& f = G<DiskFile>(a, "x");
    std::string s = slurp(f.path);
    long keep;
    if (f.fmt == "csr")
    {
        std::vector<size_t> starts;
        bool in = false;
        for (size_t k = 0; k < s.size(); ++k) { const bool sp = s[k] == ' ' || s[k] == '\n' || s[k] == '\t'; if (!sp && !in) { starts.push_back(k); } in = !sp; }
        keep = starts.empty() ? 0 : (long)starts[a["keep"].i % starts.size()];
    }
    else { keep = s.empty() ? 0 : (long)(a["keep"].i % (long long)s.size()); }
    s.resize(keep);
    std::ofstream o(f.path.c_str(), std::ios::binary);
    o << s;
    f.bad = true;
    NONE;
}

// ------------------------------------------------------------------ library readers and writers
template <class T> static void read_into(const std::string& z, const std::string& fmt, const std::string& path, bool sym, bool dflt)
{
    auto put = [&](SparseMatrix<T> m) { env->put(z, make(std::move(m))); };
    if (fmt == "text") { env->put(z, make(ReadText<T>(path))); }
    else if (fmt == "binv") { env->put(z, make(ReadBinaryVect<T>(path))); }
    else if (fmt == "binm") { put(ReadBinaryMat<T>(path)); }
    else if (fmt == "coo") { put(dflt && !sym ? ReadCooList<T>(path) : ReadCooList<T>(path, sym)); }
    else if (fmt == "adj") { put(dflt && !sym ? ReadAdjList<T>(path) : ReadAdjList<T>(path, sym)); }
    else if (fmt == "graph") { put(ReadGraphList<T>(path)); }
    else if (fmt == "table") { put(ReadTable<T>(path)); }
    else if (fmt == "csr") { put(ReadCSR<T>(path)); }
    else if (fmt == "mtx") { put(ReadMTX<T>(path)); }
    else if (fmt == "mtxl") { put(ReadMTXList<T>(path)); }
    else { throw std::logic_error("script: reader " + fmt); }
}
template <class T> static void write_sp(const SparseMatrix<T>& m, const std::string& fmt, const std::string& path, bool sym, bool dflt)
{
    if (fmt == "binm") { WriteBinary(m, path); }
    else if (fmt == "coo") { if (dflt && !sym) { WriteCooList(m, path); } else { WriteCooList(m, path, sym); } }
    else if (fmt == "adj") { if (dflt && !sym) { WriteAdjList(m, path); } else { WriteAdjList(m, path, sym); } }
    else if (fmt == "table") { WriteTable(m, path); }
    else if (fmt == "csr") { WriteCSR(m, path); }
    else if (fmt == "mtx") { WriteMTX(m, path); }
    else { throw std::logic_error("script: writer " + fmt); }
}
// -> 1 done, 0 refused with an exception
template <class F> static J refusable(F f)
{
    try { f(); }
    catch (const std::logic_error& e) { if (std::string(e.what()).compare(0, 7, "script:") == 0) { throw; } return J(0); }
    catch (const std::exception&) { return J(0); }
    return J(1);
}
OPT("file.read")
{
    DiskFile& f = G<DiskFile>(a, "x");
    const std::string path = f.path, z = S(a, "z"), fmt = S(a, "fmt");
    return refusable([&] { read_into<T>(z, fmt, path, I(a, "sym") != 0, B(a, "dflt")); });
}
OPT("file.readmissing")
{
    const std::string path = S(a, "form") == "dir" ? env->scratch + "/no/such/dir/file" : env->scratch + "/nosuchfile";
    return refusable([&] { read_into<T>(S(a, "z"), S(a, "fmt"), path, I(a, "sym") != 0, false); });
}
template <class T> static void write_any(const J& a, const std::string& path)
{
    const std::string fmt = S(a, "fmt");
    Obj& o = O(a, "x");
    if (fmt == "text" || fmt == "binv")
    {
        const std::string k = o.kind();
        if (k == "arr")
        {
            if (fmt == "text") { WriteText(static_cast<const std::vector<T>&>(G<std::vector<T>>(a, "x")), path); }
            else { WriteBinary(static_cast<const std::vector<T>&>(G<std::vector<T>>(a, "x")), path); }
        }
        else if (k == "vec" && S(a, "form") == "vec")
        {
            if (fmt == "text") { WriteText(static_cast<const Vector<T>&>(G<Vector<T>>(a, "x")), path); }
            else { WriteBinary(G<Vector<T>>(a, "x").data(), path); }
        }
        else { WriteText(CV<T>(a, "x"), path); }
    }
    else { write_sp<T>(G<SparseMatrix<T>>(a, "x"), fmt, path, I(a, "sym") != 0, B(a, "dflt")); }
}
OPT("file.write")
{
    const std::string z = S(a, "z");
    auto it = env->slots.find(z);
    if (it != env->slots.end())
    {
        // writing over an existing file replaces it
        DiskFile& f = G<DiskFile>(a, "z");
        write_any<T>(a, f.path);
        f.fmt = S(a, "fmt"); f.t = tname<T>(); f.sym = I(a, "sym"); f.bad = false;
        NONE;
    }
    DiskFile f;
    f.path = fresh_path();
    f.fmt = S(a, "fmt");
    f.t = tname<T>();
    f.sym = I(a, "sym");
    write_any<T>(a, f.path);
    env->put(z, std::unique_ptr<Obj>(new Hold<DiskFile>(std::move(f))));
    NONE;
}
OPT("file.writebad")
{
    return refusable([&] { write_any<T>(a, S(a, "where") == "dir" ? env->scratch : env->scratch + "/no/such/dir/file"); });
}

// ------------------------------------------------------------------ bit patterns: values as hexadecimal images
template <class T> struct Bits;
template <> struct Bits<double>
{
    static std::string str(double v) { uint64_t u; memcpy(&u, &v, 8); char b[20]; snprintf(b, sizeof b, "%016llx", (unsigned long long)u); return b; }
    static double val(const std::string& s) { uint64_t u = strtoull(s.c_str(), nullptr, 16); double v; memcpy(&v, &u, 8); return v; }
};
template <> struct Bits<int>
{
    static std::string str(int v) { return std::to_string(v); }
    static int val(const std::string& s) { return (int)strtol(s.c_str(), nullptr, 10); }
};
template <class T> static J bits(const std::vector<T>& v) { J r = J::arr(); for (T x : v) { r.push(J(Bits<T>::str(x))); } return r; }
template <class T> static std::vector<T> unbits(const J& l) { std::vector<T> r; for (const auto& x : l.a) { r.push_back(Bits<T>::val(x.s)); } return r; }
template <class T> struct XVec { std::vector<T> v; XVec(std::vector<T> x) : v(std::move(x)) {} };
template <class T> struct XMat { SparseMatrix<T> m; XMat(SparseMatrix<T> x) : m(std::move(x)) {} };
template <class T> struct Traits<XVec<T>>
{
    static constexpr bool copyable = false, assignable = false, swappable = false, movable = false;
    static const char* kind() { return "xv"; }
    static J proj(XVec<T>& x) { return J::obj().set("k", "xv").set("t", tname<T>()).set("v", bits(x.v)); }
};
template <class T> struct Traits<XMat<T>>
{
    static constexpr bool copyable = false, assignable = false, swappable = false, movable = false;
    static const char* kind() { return "xm"; }
    static J proj(XMat<T>& x)
    {
        const SparseMatrix<T>& m = x.m;
        return J::obj().set("k", "xm").set("t", tname<T>()).set("r", m.Rows()).set("c", m.Cols())
               .set("p", ints(m.GetIndptr())).set("j", ints(m.GetIndices())).set("x", bits(m.GetData()));
    }
};
OPT("x.vec") { P(a, "z", XVec<T>(unbits<T>(a["v"]))); NONE; }
OPT("x.mat") { P(a, "z", XMat<T>(SparseMatrix<T>(IV(a, "p"), IV(a, "j"), unbits<T>(a["x"]), I(a, "r"), I(a, "c")))); NONE; }
OPT("x.trip")
{
    const std::string fmt = S(a, "fmt"), path = fresh_path();
    struct Del { const std::string& p; ~Del() { unlink(p.c_str()); } } del{path};
    if (fmt == "text" || fmt == "binv")
    {
        const std::vector<T>& v = G<XVec<T>>(a, "x").v;
        if (fmt == "binv") { WriteBinary(v, path); P(a, "z", XVec<T>(ReadBinaryVect<T>(path))); }
        else
        {
            if (S(a, "form") == "vec") { WriteText(Vector<T>(v), path); } else { WriteText(v, path); }
            P(a, "z", XVec<T>(ReadText<T>(path)));
        }
        NONE;
    }
    const bool sym = I(a, "sym") != 0;
    write_sp<T>(G<XMat<T>>(a, "x").m, fmt, path, sym, true);
    if (fmt == "binm") { P(a, "z", XMat<T>(ReadBinaryMat<T>(path))); }
    else if (fmt == "coo") { P(a, "z", XMat<T>(ReadCooList<T>(path, sym))); }
    else if (fmt == "csr") { P(a, "z", XMat<T>(ReadCSR<T>(path))); }
    else if (fmt == "mtx") { P(a, "z", XMat<T>(ReadMTX<T>(path))); }
    else { throw std::logic_error("script: trip " + fmt); }
    NONE;
}
