// Minimal JSON value (integers, strings, booleans, arrays, objects): all that scripts and traces need.
#pragma once
#include <string>
#include <vector>
#include <utility>
#include <stdexcept>
#include <cstring>
#include <cstdlib>

struct J
{
    enum Type { Null, Bool, Int, Str, Arr, Obj } t = Null;
    long long i = 0;
    std::string s;
    std::vector<J> a;
    std::vector<std::pair<std::string, J>> o;

    J() {}
    J(int v) : t(Int), i(v) {}
    J(long long v) : t(Int), i(v) {}
    J(bool v) : t(Bool), i(v) {}
    J(const std::string& v) : t(Str), s(v) {}
    J(const char* v) : t(Str), s(v) {}
    static J arr() { J j; j.t = Arr; return j; }
    static J obj() { J j; j.t = Obj; return j; }

    const J* find(const std::string& k) const
    {
        for (const auto& p : o) { if (p.first == k) { return &p.second; } }
        return nullptr;
    }
    bool has(const std::string& k) const { return find(k) != nullptr; }
    const J& operator[](const std::string& k) const
    {
        const J* p = find(k);
        if (!p) { throw std::logic_error("script: missing key " + k); }
        return *p;
    }
    const J& at(size_t k) const { return a.at(k); }
    J& set(const std::string& k, J v)
    {
        t = Obj;
        for (auto& p : o) { if (p.first == k) { p.second = std::move(v); return *this; } }
        o.emplace_back(k, std::move(v));
        return *this;
    }
    J& push(J v) { t = Arr; a.push_back(std::move(v)); return *this; }
    size_t size() const { return t == Arr ? a.size() : o.size(); }

    static void quote(const std::string& v, std::string& out)
    {
        out += '"';
        for (unsigned char c : v)
        {
            if (c == '"') { out += "\\\""; }
            else if (c == '\\') { out += "\\\\"; }
            else if (c == '\n') { out += "\\n"; }
            else if (c == '\t') { out += "\\t"; }
            else if (c == '\r') { out += "\\r"; }
            else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); out += b; }
            else { out += c; }
        }
        out += '"';
    }
    void dump(std::string& out) const
    {
        switch (t)
        {
            case Null: out += "\"null\""; break;
            case Bool: out += i ? "true" : "false"; break;
            case Int: out += std::to_string(i); break;
            case Str: quote(s, out); break;
            case Arr:
            {
                out += '[';
                for (size_t k = 0; k < a.size(); ++k) { if (k) { out += ','; } a[k].dump(out); }
                out += ']';
                break;
            }
            case Obj:
            {
                out += '{';
                for (size_t k = 0; k < o.size(); ++k)
                {
                    if (k) { out += ','; }
                    quote(o[k].first, out);
                    out += ':';
                    o[k].second.dump(out);
                }
                out += '}';
                break;
            }
        }
    }
    std::string str() const { std::string r; dump(r); return r; }

    static J parse(const std::string& text)
    {
        const char* p = text.c_str();
        return value(p);
    }

    private:
    static void ws(const char*& p) { while (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r') { ++p; } }
    static std::string str_(const char*& p)
    {
        std::string r;
        ++p;
        while (*p && *p != '"')
        {
            if (*p == '\\')
            {
                ++p;
                switch (*p)
                {
                    case 'n': r += '\n'; break;
                    case 't': r += '\t'; break;
                    case 'r': r += '\r'; break;
                    case 'u': { char b[5] = {p[1], p[2], p[3], p[4], 0}; r += (char)strtol(b, nullptr, 16); p += 4; break; }
                    default: r += *p;
                }
                ++p;
            }
            else { r += *p++; }
        }
        ++p;
        return r;
    }
    static J value(const char*& p)
    {
        ws(p);
        if (*p == '{')
        {
            J r = obj();
            ++p; ws(p);
            if (*p == '}') { ++p; return r; }
            while (true)
            {
                ws(p);
                std::string k = str_(p);
                ws(p); ++p;
                r.o.emplace_back(k, value(p));
                ws(p);
                if (*p == ',') { ++p; continue; }
                ++p; return r;
            }
        }
        if (*p == '[')
        {
            J r = arr();
            ++p; ws(p);
            if (*p == ']') { ++p; return r; }
            while (true)
            {
                r.a.push_back(value(p));
                ws(p);
                if (*p == ',') { ++p; continue; }
                ++p; return r;
            }
        }
        if (*p == '"') { return J(str_(p)); }
        if (*p == 't') { p += 4; return J(true); }
        if (*p == 'f') { p += 5; return J(false); }
        if (*p == 'n') { p += 4; return J(); }
        char* e;
        long long v = strtoll(p, &e, 10);
        if (e == p) { throw std::logic_error(std::string("script: bad json at ") + p); }
        p = e;
        return J(v);
    }
};
