// Vectors, views, raw arrays; generic lifetime operations.
#include "core.hpp"

// ------------------------------------------------------------------ construction
OPT("vec.new") { P(a, "z", Vector<T>(I(a, "n"))); NONE; }
OPT("vec.newval") { P(a, "z", Vector<T>(I(a, "n"), NT<T>(a, "val"))); NONE; }
OPT("vec.default") { P(a, "z", Vector<T>()); NONE; }
OPT("vec.from")
{
    std::vector<T> v = NV<T>(a, "v");
    if (S(a, "form") == "ptr") { Vector<T> z(v.data(), (int)v.size()); P(a, "z", std::move(z)); }
    else { P(a, "z", Vector<T>(std::move(v))); }
    NONE;
}
OPT("vec.fromview") { P(a, "z", Vector<T>(CV<T>(a, "x"))); NONE; }
OPT("vec.arr") { P(a, "z", NV<T>(a, "v")); NONE; }
OPT("vec.arrset") { G<std::vector<T>>(a, "x").at(I(a, "i")) = NT<T>(a, "val"); NONE; }

OPT("vec.view")                                         // a view of a whole vector or view
{
    if (S(a, "form") == "move") { VectorView<T> tmp(VV<T>(a, "x")); P(a, "z", VectorView<T>(std::move(tmp))); }
    else { P(a, "z", VectorView<T>(VV<T>(a, "x"))); }
    NONE;
}
OPT("vec.viewptr")                                      // a view of a section
{
    VectorView<T>& x = VV<T>(a, "x");
    P(a, "z", VectorView<T>(x.begin() + I(a, "off"), I(a, "n")));
    NONE;
}
OPT("vec.viewarr")
{
    std::vector<T>& x = G<std::vector<T>>(a, "x");
    if (S(a, "form") == "ptr") { P(a, "z", VectorView<T>(x.data() + I(a, "off"), I(a, "n"))); }
    else { P(a, "z", VectorView<T>(x)); }
    NONE;
}
OPT("vec.viewdefault") { P(a, "z", VectorView<T>()); NONE; }

// ------------------------------------------------------------------ assignment
OPT("vec.setview") { G<Vector<T>>(a, "x") = CV<T>(a, "y"); NONE; }     // Vector = const VectorView&
OPT("vec.assign")                                                      // view = view: copies values
{
    VectorView<T>& x = VV<T>(a, "x");
    VectorView<T>& y = VV<T>(a, "y");
    const std::string& f = S(a, "form");
    if (f == "const") { x = static_cast<const VectorView<T>&>(y); }
    else if (f == "move") { x = std::move(y); }
    else { x = y; }
    NONE;
}
OPT("vec.fill")
{
    if (S(a, "form") == "vec") { G<Vector<T>>(a, "x") = NT<T>(a, "val"); }
    else { VV<T>(a, "x") = NT<T>(a, "val"); }
    NONE;
}
OPT("vec.swapview") { swap(G<VectorView<T>>(a, "x"), G<VectorView<T>>(a, "y")); NONE; }
OPT("vec.setsize")
{
    if (a.has("val")) { G<Vector<T>>(a, "x").SetSize(I(a, "n"), NT<T>(a, "val")); }
    else { G<Vector<T>>(a, "x").SetSize(I(a, "n")); }
    NONE;
}

// ------------------------------------------------------------------ elements
OPT("vec.put")
{
    VectorView<T>& x = VV<T>(a, "x");
    if (S(a, "form") == "iter") { auto it = x.begin(); it += I(a, "i"); *it = NT<T>(a, "val"); }
    else { x[I(a, "i")] = NT<T>(a, "val"); }
    NONE;
}
OPT("vec.get")
{
    if (S(a, "form") == "const") { return sc(CV<T>(a, "x")[I(a, "i")]); }
    return sc(VV<T>(a, "x")[I(a, "i")]);
}
OPT("vec.list")
{
    J r = J::arr();
    const std::string& f = S(a, "form");
    if (f == "const") { for (const T& v : CV<T>(a, "x")) { r.push(sc(v)); } }
    else if (f == "data") { for (const T& v : G<Vector<T>>(a, "x").data()) { r.push(sc(v)); } }
    else if (f == "size") { const VectorView<T>& x = CV<T>(a, "x"); for (int i = 0; i < x.size(); ++i) { r.push(sc(x[i])); } }
    else { for (T& v : VV<T>(a, "x")) { r.push(sc(v)); } }
    return r;
}
OPT("vec.sub")
{
    const VectorView<T>& x = CV<T>(a, "x");
    if (S(a, "form") == "out") { x.GetSubVector(IV(a, "idx"), G<Vector<T>>(a, "z")); }
    else { P(a, "z", x.GetSubVector(IV(a, "idx"))); }
    NONE;
}

// ------------------------------------------------------------------ arithmetic
OPT("vec.axpy")
{
    VectorView<T>& x = VV<T>(a, "x");
    const VectorView<T>& y = CV<T>(a, "y");
    const std::string& f = S(a, "form");
    VectorView<T>* r = nullptr;
    if (f == "add") { r = &x.Add(N(a, "al"), y); }
    else if (f == "sub") { r = &x.Sub(N(a, "al"), y); }
    else if (f == "set") { r = &x.Set(N(a, "al"), y); }
    else if (f == "add1") { r = &x.Add(y); }
    else if (f == "sub1") { r = &x.Sub(y); }
    else { r = &x.Set(y); }
    return J(r == &x);
}
OPT("vec.comb")
{
    linalgcpp::Add(NT<T>(a, "al"), CV<T>(a, "x"), NT<T>(a, "be"), CV<T>(a, "y"), NT<T>(a, "ga"), VectorView<T>(VV<T>(a, "z")));
    NONE;
}
OPT("vec.addz")
{
    if (S(a, "form") == "sub") { linalgcpp::Sub(CV<T>(a, "x"), CV<T>(a, "y"), VectorView<T>(VV<T>(a, "z"))); }
    else { linalgcpp::Add(CV<T>(a, "x"), CV<T>(a, "y"), VectorView<T>(VV<T>(a, "z"))); }
    NONE;
}
OPT("vec.ew")                                           // entrywise x op= y
{
    VectorView<T>& x = VV<T>(a, "x");
    const VectorView<T>& y = CV<T>(a, "y");
    const std::string& f = S(a, "form");
    if (f == "mul") { x *= y; }
    else if (f == "div") { x /= y; }
    else if (f == "add") { x += y; }
    else { x -= y; }
    NONE;
}
OP("vec.ewmix")                                         // double += int
{
    VV<double>(a, "x") += CV<int>(a, "y");
    NONE;
}
OPT("vec.sca")                                          // x op= val
{
    VectorView<T>& x = VV<T>(a, "x");
    const T v = NT<T>(a, "val");
    const std::string& f = S(a, "form");
    if (f == "mul") { x *= v; }
    else if (f == "div") { x /= v; }
    else if (f == "add") { x += v; }
    else { x -= v; }
    NONE;
}
OPT("vec.expr")                                         // new vector from an expression
{
    const Vector<T>& x = G<Vector<T>>(a, "x");
    const std::string& f = S(a, "form");
    if (f == "add") { P(a, "z", x + G<Vector<T>>(a, "y")); }
    else if (f == "sub") { P(a, "z", x - G<Vector<T>>(a, "y")); }
    else
    {
        const T v = NT<T>(a, "val");
        if (f == "xv") { P(a, "z", x * v); }
        else if (f == "vx") { P(a, "z", v * x); }
        else if (f == "xd") { P(a, "z", x / v); }
        else { P(a, "z", v / x); }
    }
    NONE;
}

// ------------------------------------------------------------------ reductions
OPT("vec.dot")
{
    const VectorView<T>& x = CV<T>(a, "x");
    const VectorView<T>& y = CV<T>(a, "y");
    const std::string& f = S(a, "form");
    if (f == "mem") { return sc(x.Mult(y)); }
    if (f == "op") { return sc(x * y); }
    if (f == "vec") { return sc(G<Vector<T>>(a, "x").Mult(y)); }
    return sc(linalgcpp::InnerProduct(x, y));
}
OPT("vec.red")
{
    const VectorView<T>& x = CV<T>(a, "x");
    const std::string& f = S(a, "form");
    if (f == "sum") { return sc(x.Sum()); }
    if (f == "sumf") { return sc(linalgcpp::Sum(x)); }
    if (f == "mean") { return sc(linalgcpp::Mean(x)); }
    if (f == "max") { return sc(linalgcpp::Max(x)); }
    if (f == "min") { return sc(linalgcpp::Min(x)); }
    if (f == "absmax") { return sc(linalgcpp::AbsMax(x)); }
    if (f == "absmin") { return sc(linalgcpp::AbsMin(x)); }
    if (f == "l2") { return sc(x.L2Norm()); }
    if (f == "l2f") { return sc(linalgcpp::L2Norm(x)); }
    if (f == "size") { return J(x.size()); }
    throw std::logic_error("script: red " + f);
}
OP("vec.eq")
{
    const std::string t = S(a, "t") + S(a, "u");
    if (t == "dd") { return J(CV<double>(a, "x") == CV<double>(a, "y")); }
    if (t == "di") { return J(CV<double>(a, "x") == CV<int>(a, "y")); }
    if (t == "id") { return J(CV<int>(a, "x") == CV<double>(a, "y")); }
    return J(CV<int>(a, "x") == CV<int>(a, "y"));
}
OP("vec.eqpert")                                        // x == x + 10^e * unit_i
{
    const VectorView<double>& x = CV<double>(a, "x");
    Vector<double> y(x);
    const double d = std::pow(10.0, I(a, "e"));
    y[I(a, "i")] += B(a, "neg") ? -d : d;
    return J(S(a, "form") == "rev" ? (static_cast<VectorView<double>&>(y) == x) : (x == static_cast<VectorView<double>&>(y)));
}

// ------------------------------------------------------------------ randomise / normalise
// Results that are not multiples of 1/F are returned in fixed point and the vector is then zeroed.
OP("vec.rand")
{
    const std::string& f = S(a, "form");
    const int lo = I(a, "lo"), hi = I(a, "hi"), seed = I(a, "seed");
    J r = J::arr();
    if (S(a, "t") == "i")
    {
        VectorView<int>& x = VV<int>(a, "x");
        if (f == "mem") { x.Randomize(lo, hi, seed); }
        else { linalgcpp::Randomize(VectorView<int>(x), lo, hi, seed); }
        for (int v : x) { r.push(J(v)); }
        x = 0;
    }
    else
    {
        VectorView<double>& x = VV<double>(a, "x");
        if (f == "mem") { x.Randomize(lo, hi, seed); }
        else { linalgcpp::Randomize(VectorView<double>(x), lo, hi, seed); }
        for (double v : x) { r.push(J((long long)(std::isfinite(v) && std::fabs(v) < 2000 ? std::floor(v * 1000000.0) : S_NAN))); }
        x = 0.0;
    }
    return r;
}
OP("vec.normalize")
{
    VectorView<double>& x = VV<double>(a, "x");
    for (double& v : x) { v = std::ldexp(v, I(a, "e")); }
    if (S(a, "form") == "mem") { x.Normalize(); }
    else { linalgcpp::Normalize(VectorView<double>(x)); }
    J r = J::arr();
    double s = 0.0;
    for (double v : x)
    {
        r.push(J((long long)(std::isfinite(v) && std::fabs(v) < 2000 ? std::llround(v * 1000.0) : S_NAN)));
        s += v * v;
    }
    const double off = std::fabs(std::sqrt(s) - 1.0) * 1e12;             // how far from unit length, in 1e-12
    r.push(J((long long)(off < 1e6 ? std::ceil(off) : 1e6)));
    x = 0.0;
    return r;
}
OP("vec.subavg") { linalgcpp::SubAvg(VectorView<double>(VV<double>(a, "x"))); NONE; }

// ------------------------------------------------------------------ lifetime, any kind of object
OP("life.copy") { Obj& x = O(a, "x"); env->put(S(a, "z"), x.copy()); NONE; }
OP("life.move") { Obj& x = O(a, "x"); auto z = x.move(); x.moved = true; env->put(S(a, "z"), std::move(z)); NONE; }
OP("life.assign") { Obj& x = O(a, "x"); x.assign(O(a, "y")); x.moved = false; NONE; }
OP("life.massign") { Obj& x = O(a, "x"); Obj& y = O(a, "y"); x.massign(y); y.moved = true; x.moved = false; NONE; }
OP("life.swap") { Obj& x = O(a, "x"); Obj& y = O(a, "y"); x.swp(y); std::swap(x.moved, y.moved); NONE; }
OP("life.del") { O(a, "x"); env->slots.erase(S(a, "x")); NONE; }
