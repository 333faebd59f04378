// Printing.  The text is split into its parts here; what the parts must be is the specification's business.
#include "core_kinds.hpp"
#include <iomanip>
#include <cstdlib>

namespace
{
std::vector<std::string> lines(const std::string& s)
{
    std::vector<std::string> r;
    std::string cur;
    for (char c : s) { if (c == '\n') { r.push_back(cur); cur.clear(); } else { cur += c; } }
    if (!cur.empty()) { r.push_back(cur); }
    return r;
}
std::vector<std::string> words(const std::string& s)
{
    std::vector<std::string> r;
    std::istringstream i(s);
    std::string w;
    while (i >> w) { r.push_back(w); }
    return r;
}
J number(const std::string& w)
{
    char* e = nullptr;
    const double v = strtod(w.c_str(), &e);
    if (w.empty() || *e) { return J((long long)S_FRAC); }
    return sc(v);
}
// "(i, j) v" -> [i, j, v]
bool entry(const std::string& s, J& out)
{
    int i, j, k = 0;
    if (sscanf(s.c_str(), " ( %d , %d ) %n", &i, &j, &k) < 2 || k == 0) { return false; }
    std::vector<std::string> w = words(s.substr(k));
    if (w.size() != 1) { return false; }
    out.push(J::arr().push(J(i)).push(J(j)).push(number(w[0])));
    return true;
}
// label, entries; whatever else there is shows up as junk
J listing(const std::vector<std::string>& ls, size_t& n)
{
    J r = J::obj(), e = J::arr(), junk = J::arr();
    r.set("label", n < ls.size() ? ls[n] : std::string("<none>"));
    if (n < ls.size()) { ++n; }
    for (; n < ls.size(); ++n)
    {
        if (words(ls[n]).empty()) { ++n; break; }
        if (!entry(ls[n], e)) { junk.push(J(ls[n])); }
    }
    r.set("e", e);
    r.set("junk", J((int)junk.a.size()));
    return r;
}
J rest(const std::vector<std::string>& ls, size_t n) { int k = 0; for (; n < ls.size(); ++n) { k += !words(ls[n]).empty(); } return J(k); }
// one number per line
J column(const std::string& t)
{
    std::vector<std::string> ls = lines(t);
    J r = J::obj(), v = J::arr();
    r.set("label", ls.empty() ? std::string("<none>") : ls[0]);
    size_t n = 1;
    for (; n < ls.size(); ++n)
    {
        std::vector<std::string> w = words(ls[n]);
        if (w.empty()) { ++n; break; }
        v.push(w.size() == 1 ? number(w[0]) : J((long long)S_FRAC));
    }
    r.set("v", v);
    r.set("junk", rest(ls, n));
    return r;
}
// rows of numbers, of a fixed width each
J grid(const std::string& t, int rows, int cols, int width)
{
    std::vector<std::string> ls = lines(t);
    J r = J::obj(), v = J::arr();
    r.set("label", ls.empty() ? std::string("<none>") : ls[0]);
    size_t n = 1;
    for (int i = 0; i < rows; ++i, ++n)
    {
        J row = J::arr();
        if (n < ls.size())
        {
            std::vector<std::string> w = words(ls[n]);
            if ((int)w.size() != cols && width > 0 && ls[n].size() == (size_t)cols * width)
            {
                w.clear();
                for (int j = 0; j < cols; ++j) { std::vector<std::string> x = words(ls[n].substr(j * width, width)); w.push_back(x.size() == 1 ? x[0] : ""); }
            }
            for (const auto& x : w) { row.push(number(x)); }
        }
        v.push(row);
    }
    r.set("v", v);
    r.set("junk", rest(ls, n));
    return r;
}

// Runs f on a stream (or on standard output) and returns the text it wrote; what it did to the stream's settings goes to fmt.
struct Out
{
    std::string text;
    int fmt = 1;
};
Out collect(const J& a, std::function<void(std::ostream&)> f, std::function<void()> dflt)
{
    Out o;
    std::stringstream ss;
    const bool std_out = S(a, "to") == "cout";
    const bool by_default = S(a, "to") == "default";
    std::streambuf* old = nullptr;
    std::ostream& s = std_out || by_default ? std::cout : static_cast<std::ostream&>(ss);
    if (std_out || by_default) { old = std::cout.rdbuf(ss.rdbuf()); }
    const auto p0 = s.precision();
    const auto f0 = s.flags();
    if (I(a, "prec") > 0) { s.precision(I(a, "prec")); }
    const auto p1 = s.precision();
    const auto c1 = s.fill();
    if (by_default) { dflt(); } else { f(s); }
    o.fmt = s.precision() == p1 && s.flags() == f0 && s.fill() == c1 && s.width() == 0 && s.good();
    s.precision(p0);
    s.flags(f0);
    if (old) { std::cout.rdbuf(old); }
    o.text = ss.str();
    return o;
}
template <class X> Out printed(const J& a, const X& x)
{
    const std::string& l = S(a, "label");
    return collect(a, [&](std::ostream& s) { x.Print(l, s); }, [&]() { if (l.empty()) { x.Print(); } else { x.Print(l); } });
}
template <class X> Out printed_dense(const J& a, const X& x)
{
    const std::string& l = S(a, "label");
    return collect(a, [&](std::ostream& s) { x.PrintDense(l, s); }, [&]() { if (l.empty()) { x.PrintDense(); } else { x.PrintDense(l); } });
}
J done(J r, const Out& o) { r.set("fmt", J(o.fmt)); return r; }
J list_of(const Out& o)
{
    std::vector<std::string> ls = lines(o.text);
    size_t n = 0;
    J r = listing(ls, n);
    r["junk"];
    for (auto& p : r.o) { if (p.first == "junk") { p.second = J((int)(p.second.i + rest(ls, n).i)); } }
    return r;
}
}

OPT("print.vec")
{
    const VectorView<T>& x = CV<T>(a, "x");
    Out t = printed(a, x);
    return done(column(t.text), t);
}
// operator<< of vectors and of standard vectors; returns the stream it was given
OPT("print.stream")
{
    Obj& o = O(a, "x");
    bool same = true;
    Out t;
    if (std::string(o.kind()) == "arr")
    {
        const std::vector<T>& v = G<std::vector<T>>(a, "x");
        t = collect(a, [&](std::ostream& s) { same = &(s << v) == &s; }, [&]() { same = &(std::cout << v) == &std::cout; });
    }
    else
    {
        const VectorView<T>& v = CV<T>(a, "x");
        t = collect(a, [&](std::ostream& s) { same = &(s << v) == &s; }, [&]() { same = &(std::cout << v) == &std::cout; });
    }
    t.fmt = t.fmt && same;
    return done(column(t.text), t);
}
OPT("print.list")
{
    const std::string k = O(a, "x").kind();
    Out t;
    if (k == "sp") { t = printed(a, static_cast<const SparseMatrix<T>&>(G<SparseMatrix<T>>(a, "x"))); }
    else if (k == "coo") { t = printed(a, static_cast<const CooMatrix<T>&>(G<CooMatrix<T>>(a, "x"))); }
    else { t = printed(a, static_cast<const LilMatrix<T>&>(G<LilMatrix<T>>(a, "x"))); }
    return done(list_of(t), t);
}
OPT("print.blocks")
{
    const BlockMatrix<T>& x = G<BlockMatrix<T>>(a, "x");
    Out t = printed(a, x);
    std::vector<std::string> ls = lines(t.text);
    J r = J::obj(), b = J::arr();
    r.set("label", ls.empty() ? std::string("<none>") : ls[0]);
    int junk = 0;
    for (size_t n = 1; n < ls.size();)
    {
        if (words(ls[n]).empty()) { ++n; continue; }
        J blk = listing(ls, n);
        int i = -1, j = -1;
        if (sscanf(blk["label"].s.c_str(), " block ( %d , %d )", &i, &j) != 2) { ++junk; }
        junk += (int)blk["junk"].i;
        b.push(J::arr().push(J(i)).push(J(j)).push(blk["e"]));
    }
    r.set("b", b);
    r.set("junk", J(junk));
    return done(r, t);
}
OPT("print.dense")
{
    const std::string k = O(a, "x").kind();
    const std::string& l = S(a, "label");
    Out t;
    int r = 0, c = 0, w = 8;
    if (k == "dn")
    {
        const DenseMatrix& x = G<DenseMatrix>(a, "x");
        r = x.Rows();
        c = x.Cols();
        if (a.has("p")) { w = I(a, "w"); t = collect(a, [&](std::ostream& s) { x.Print(l, s, w, I(a, "p")); }, [&]() { x.Print(l, std::cout, w, I(a, "p")); }); }
        else if (a.has("w")) { w = I(a, "w"); t = collect(a, [&](std::ostream& s) { x.Print(l, s, w); }, [&]() { x.Print(l, std::cout, w); }); }
        else { t = printed(a, x); }
    }
    else if (k == "sp") { const SparseMatrix<T>& x = G<SparseMatrix<T>>(a, "x"); r = x.Rows(); c = x.Cols(); t = printed_dense(a, x); }
    else { const BlockMatrix<T>& x = G<BlockMatrix<T>>(a, "x"); r = x.Rows(); c = x.Cols(); t = printed_dense(a, x); }
    return done(grid(t.text, r, c, w), t);
}
