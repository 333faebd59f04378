// Script interpreter core: named slots holding real library objects, projections of their observable state.
#pragma once
#include <map>
#include <memory>
#include <functional>
#include <cmath>
#include <sstream>
#include <iostream>
#include "linalgcpp.hpp"
#include "mjson.hpp"

using namespace linalgcpp;

// ------------------------------------------------------------------ numbers
// A value v is projected as v*F (F: scale of the episode).  Anything not exactly representable becomes a sentinel
// that the specification never produces.
enum { S_NAN = 2000000001, S_PINF = 2000000002, S_NINF = 2000000003, S_FRAC = 2000000004, S_BIG = 2000000005 };

struct Env;
extern Env* env;

struct Obj
{
    bool moved = false;
    virtual ~Obj() {}
    virtual J proj() = 0;
    virtual const char* kind() const = 0;
    virtual VectorView<double>* vd() { return nullptr; }
    virtual VectorView<int>* vi() { return nullptr; }
    virtual Operator* oper() { return nullptr; }
    virtual std::unique_ptr<Obj> copy() { throw std::logic_error("script: copy unsupported"); }
    virtual std::unique_ptr<Obj> move() { throw std::logic_error("script: move unsupported"); }
    virtual void assign(Obj&) { throw std::logic_error("script: assign unsupported"); }
    virtual void massign(Obj&) { throw std::logic_error("script: move-assign unsupported"); }
    virtual void swp(Obj&) { throw std::logic_error("script: swap unsupported"); }
};

struct Env
{
    long long F = 1;
    std::map<std::string, std::unique_ptr<Obj>> slots;
    std::string scratch;                       // scratch directory for file operations

    J sc(double v) const
    {
        if (std::isnan(v)) { return J((long long)S_NAN); }
        if (std::isinf(v)) { return J((long long)(v > 0 ? S_PINF : S_NINF)); }
        const double w = v * (double)F;
        if (std::fabs(w) > 1.9e9) { return J((long long)S_BIG); }
        if (w != std::floor(w)) { return J((long long)S_FRAC); }
        return J((long long)w);
    }
    J sc(int v) const { return sc((double)v); }
    double un(const J& j) const { return (double)j.i / (double)F; }

    Obj& obj(const std::string& s)
    {
        auto it = slots.find(s);
        if (it == slots.end()) { throw std::logic_error("script: no slot " + s); }
        return *it->second;
    }
    void put(const std::string& s, std::unique_ptr<Obj> o)
    {
        auto it = slots.find(s);
        if (it != slots.end()) { slots.erase(it); }
        slots[s] = std::move(o);
    }
};

inline J sc(double v) { return env->sc(v); }
inline J sc(int v) { return env->sc(v); }

template <class V> J scs(const V& v) { J r = J::arr(); for (const auto& x : v) { r.push(sc(x)); } return r; }
inline J ints(const std::vector<int>& v) { J r = J::arr(); for (int x : v) { r.push(J(x)); } return r; }

// ------------------------------------------------------------------ arguments
inline const std::string& S(const J& a, const char* k) { return a[k].s; }
inline int I(const J& a, const char* k) { return (int)a[k].i; }
inline bool B(const J& a, const char* k) { return a.has(k) && a[k].i != 0; }
inline double N(const J& a, const char* k) { return env->un(a[k]); }
template <class T> inline T NT(const J& a, const char* k) { return (T)env->un(a[k]); }
inline std::vector<int> IV(const J& a, const char* k) { std::vector<int> r; for (const auto& x : a[k].a) { r.push_back((int)x.i); } return r; }
template <class T> inline std::vector<T> NV(const J& a, const char* k) { std::vector<T> r; for (const auto& x : a[k].a) { r.push_back((T)env->un(x)); } return r; }
inline Obj& O(const J& a, const char* k) { return env->obj(S(a, k)); }

template <class T> VectorView<T>& VV(const J& a, const char* k);
template <> inline VectorView<double>& VV<double>(const J& a, const char* k)
{
    auto* p = O(a, k).vd();
    if (!p) { throw std::logic_error(std::string("script: not a double vector: ") + k); }
    return *p;
}
template <> inline VectorView<int>& VV<int>(const J& a, const char* k)
{
    auto* p = O(a, k).vi();
    if (!p) { throw std::logic_error(std::string("script: not an int vector: ") + k); }
    return *p;
}
template <class T> const VectorView<T>& CV(const J& a, const char* k) { return VV<T>(a, k); }

// ------------------------------------------------------------------ holders
template <class T> struct Traits;             // static const char* kind(); static J proj(T&); flags

template <class T> const char* tname();
template <> inline const char* tname<double>() { return "d"; }
template <> inline const char* tname<int>() { return "i"; }

template <class T> struct Hold;
template <class T> std::unique_ptr<Obj> make(T&& v) { return std::unique_ptr<Obj>(new Hold<typename std::decay<T>::type>(std::forward<T>(v))); }

template <class T, bool C> struct CopyOp { static std::unique_ptr<Obj> copy(T& v) { return std::unique_ptr<Obj>(new Hold<T>(static_cast<const T&>(v))); } };
template <class T> struct CopyOp<T, false> { static std::unique_ptr<Obj> copy(T&) { throw std::logic_error("script: not copyable"); } };
template <class T, bool C> struct AssignOp
{
    static void assign(T& x, T& y) { x = static_cast<const T&>(y); }
    static void massign(T& x, T& y) { x = std::move(y); }
};
template <class T> struct AssignOp<T, false>
{
    static void assign(T&, T&) { throw std::logic_error("script: not assignable"); }
    static void massign(T&, T&) { throw std::logic_error("script: not assignable"); }
};
template <class T, bool C> struct SwapOp { static void swp(T& x, T& y) { using std::swap; swap(x, y); } };
template <class T> struct SwapOp<T, false> { static void swp(T&, T&) { throw std::logic_error("script: not swappable"); } };
template <class T, bool C> struct MoveOp { static std::unique_ptr<Obj> move(T& v) { return std::unique_ptr<Obj>(new Hold<T>(std::move(v))); } };
template <class T> struct MoveOp<T, false> { static std::unique_ptr<Obj> move(T&) { throw std::logic_error("script: not movable"); } };

inline VectorView<double>* as_vd(VectorView<double>* p) { return p; }
inline VectorView<double>* as_vd(void*) { return nullptr; }
inline VectorView<int>* as_vi(VectorView<int>* p) { return p; }
inline VectorView<int>* as_vi(void*) { return nullptr; }
inline Operator* as_op(Operator* p) { return p; }
inline Operator* as_op(void*) { return nullptr; }

template <class T> struct Hold : Obj
{
    T v;
    template <class... A> explicit Hold(A&&... a) : v(std::forward<A>(a)...) {}
    const char* kind() const override { return Traits<T>::kind(); }
    J proj() override { return Traits<T>::proj(v); }
    VectorView<double>* vd() override { return as_vd(&v); }
    VectorView<int>* vi() override { return as_vi(&v); }
    Operator* oper() override { return as_op(&v); }
    std::unique_ptr<Obj> copy() override { return CopyOp<T, Traits<T>::copyable>::copy(v); }
    std::unique_ptr<Obj> move() override { return MoveOp<T, Traits<T>::movable>::move(v); }
    void assign(Obj& o) override { AssignOp<T, Traits<T>::assignable>::assign(v, cast(o)); }
    void massign(Obj& o) override { AssignOp<T, Traits<T>::assignable>::massign(v, cast(o)); }
    void swp(Obj& o) override { SwapOp<T, Traits<T>::swappable>::swp(v, cast(o)); }
    T& cast(Obj& o)
    {
        auto* p = dynamic_cast<Hold<T>*>(&o);
        if (!p) { throw std::logic_error("script: kinds differ"); }
        return p->v;
    }
};

template <class T> T& G(const J& a, const char* k)
{
    auto* p = dynamic_cast<Hold<T>*>(&O(a, k));
    if (!p) { throw std::logic_error(std::string("script: slot ") + S(a, k) + " has kind " + O(a, k).kind()); }
    return p->v;
}
template <class T> void P(const J& a, const char* k, T&& v) { env->put(S(a, k), make(std::forward<T>(v))); }

#define TRAITS_COMMON static constexpr bool copyable = true, assignable = true, swappable = true, movable = true;

// What a conforming call must not do is throw; the interpreter reports that itself.  `None` means "no result".
using Fn = std::function<J(const J&)>;
std::map<std::string, Fn>& table();
struct Reg { Reg(const char* n, Fn f) { table()[n] = std::move(f); } };
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define OP(name) static J CAT(op_, __LINE__)(const J& a); static Reg CAT(reg_, __LINE__)(name, CAT(op_, __LINE__)); static J CAT(op_, __LINE__)(const J& a)
// an operation instantiated for double ("d") and int ("i") according to argument "t"
#define OPT(name) template <class T> static J CAT(opt_, __LINE__)(const J& a); \
    static Reg CAT(reg_, __LINE__)(name, [](const J& a) { return S(a, "t") == "i" ? CAT(opt_, __LINE__)<int>(a) : CAT(opt_, __LINE__)<double>(a); }); \
    template <class T> static J CAT(opt_, __LINE__)(const J& a)
#define NONE return J()

// ------------------------------------------------------------------ projections shared by several files
template <class T> J vec_proj(const char* k, const VectorView<T>& v)
{
    J r = J::obj();
    r.set("k", k);
    r.set("t", tname<T>());
    J d = J::arr();
    for (int i = 0; i < v.size(); ++i) { d.push(sc(v.begin()[i])); }
    r.set("v", d);
    return r;
}
template <class T> struct Traits<Vector<T>>
{
    TRAITS_COMMON
    static const char* kind() { return "vec"; }
    static J proj(Vector<T>& v)
    {
        J r = vec_proj<T>("vec", v);
        // the owning storage must be the one that is exposed
        if ((int)v.data().size() != v.size() || (v.size() && v.data().data() != v.begin())) { r.set("k", "vec-broken"); }
        return r;
    }
};
template <class T> struct Traits<VectorView<T>>
{
    static constexpr bool copyable = false, assignable = false, swappable = true, movable = true;
    static const char* kind() { return "view"; }
    static J proj(VectorView<T>& v) { return vec_proj<T>("view", v); }
};
template <class T> struct Traits<std::vector<T>>
{
    TRAITS_COMMON
    static const char* kind() { return "arr"; }
    static J proj(std::vector<T>& v)
    {
        J r = J::obj();
        r.set("k", "arr"); r.set("t", tname<T>()); r.set("v", scs(v));
        return r;
    }
};
template <class T> struct Traits<SparseMatrix<T>>
{
    TRAITS_COMMON
    static const char* kind() { return "sp"; }
    static J proj(SparseMatrix<T>& m)
    {
        J r = J::obj();
        r.set("k", "sp"); r.set("t", tname<T>()); r.set("r", m.Rows()); r.set("c", m.Cols());
        const SparseMatrix<T>& c = m;
        r.set("p", ints(c.GetIndptr())); r.set("j", ints(c.GetIndices())); r.set("x", scs(c.GetData()));
        return r;
    }
};
template <> struct Traits<DenseMatrix>
{
    TRAITS_COMMON
    static const char* kind() { return "dn"; }
    static J proj(DenseMatrix& m)
    {
        J r = J::obj();
        r.set("k", "dn"); r.set("r", m.Rows()); r.set("c", m.Cols());
        std::vector<double> d;
        static_cast<const DenseMatrix&>(m).CopyData(d);
        r.set("v", scs(d));
        return r;
    }
};
