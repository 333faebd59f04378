// Projections of builders and block objects.
#pragma once
#include "core.hpp"

// the slot that holds operator p, "" for none
inline std::string slot_of(const Operator* p)
{
    if (!p) { return ""; }
    for (auto& kv : env->slots) { if (!kv.second->moved && kv.second->oper() == p) { return kv.first; } }
    return "?";
}
template <class X> J builder_proj(const char* k, const char* t, const X& m)
{
    J r = J::obj();
    r.set("k", k); r.set("t", t); r.set("r", m.Rows()); r.set("c", m.Cols());
    DenseMatrix d;
    m.ToDense(d);
    std::vector<double> v;
    d.CopyData(v);
    r.set("v", scs(v));
    return r;
}
template <class T> struct Traits<CooMatrix<T>>
{
    TRAITS_COMMON
    static const char* kind() { return "coo"; }
    static J proj(CooMatrix<T>& m) { return builder_proj("coo", tname<T>(), m); }
};
template <class T> struct Traits<LilMatrix<T>>
{
    TRAITS_COMMON
    static const char* kind() { return "lil"; }
    static J proj(LilMatrix<T>& m) { return builder_proj("lil", tname<T>(), m); }
};
template <class T> struct Traits<BlockVector<T>>
{
    TRAITS_COMMON
    static const char* kind() { return "bvec"; }
    static J proj(BlockVector<T>& v)
    {
        J r = vec_proj<T>("bvec", v);
        r.set("off", ints(v.GetOffsets()));
        return r;
    }
};
template <class T> struct Traits<BlockMatrix<T>>
{
    TRAITS_COMMON
    static const char* kind() { return "bm"; }
    static J proj(BlockMatrix<T>& m)
    {
        const BlockMatrix<T>& A = m;
        J r = J::obj();
        r.set("k", "bm"); r.set("t", tname<T>()); r.set("r", A.Rows()); r.set("c", A.Cols());
        r.set("ro", ints(A.GetRowOffsets())); r.set("co", ints(A.GetColOffsets()));
        J b = J::arr();
        for (int i = 0; i + 1 < (int)A.GetRowOffsets().size(); ++i)
        {
            for (int j = 0; j + 1 < (int)A.GetColOffsets().size(); ++j)
            {
                SparseMatrix<T> s(A.GetBlock(i, j));
                b.push(Traits<SparseMatrix<T>>::proj(s));
            }
        }
        r.set("b", b);
        return r;
    }
};
template <> struct Traits<BlockOperator>
{
    static constexpr bool copyable = true, assignable = false, swappable = true, movable = true;
    static const char* kind() { return "bo"; }
    static J proj(BlockOperator& m)
    {
        const BlockOperator& A = m;
        J r = J::obj();
        r.set("k", "bo"); r.set("r", A.Rows()); r.set("c", A.Cols());
        r.set("ro", ints(A.GetRowOffsets())); r.set("co", ints(A.GetColOffsets()));
        J b = J::arr();
        for (int i = 0; i + 1 < (int)A.GetRowOffsets().size(); ++i)
        {
            for (int j = 0; j + 1 < (int)A.GetColOffsets().size(); ++j) { b.push(J(slot_of(A.GetBlock(i, j)))); }
        }
        r.set("b", b);
        return r;
    }
};
