// Replay of CurveMachine transitions: for every transition between points, every choice of
// representing tuples is tried on the real code; answers are looked up in the representation
// relation that the specification exported.
#pragma once
#include "common.hpp"

namespace cvr {
    using Pt = std::vector<int>;
    using Tup = std::vector<int>;
    struct Sys {                                  // one coordinate system of one curve
        std::map<Pt, std::vector<Tup>> in;        // tuples a caller may hold
        std::map<Tup, Pt> stands;                 // tuples that stand for a point
        std::map<Tup, bool> any;                  // no claim
        bool has(const Pt &p) const { auto i = in.find(p); return i != in.end() && !i->second.empty(); }
    };
    using Curve = std::map<std::string, Sys>;
    inline std::map<std::string, Curve> &curves() { static std::map<std::string, Curve> c; return c; }
    inline Tup tup(const rp::Val &v) { Tup t; for (auto &x : v.e) t.push_back((int)x.i()); return t; }
    inline std::string show(const Tup &t) {
        std::string s = "(";
        for (auto x : t) s += (s.size() > 1 ? "," : "") + std::to_string(x);
        return s + ")";
    }
    struct Key { std::string form; unsigned long p, d, a, b, zf; };
    inline Key key(const std::string &s) {
        Key k; char f[8];
        std::sscanf(s.c_str(), "%2s_%lu_%lu_%lu_%lu_%lu", f, &k.p, &k.d, &k.a, &k.b, &k.zf);
        k.form = f;
        return k;
    }
    using Fn = void (*)(const Key &, const Curve &, const rp::Val &);
    inline std::map<std::string, Fn> &table() { static std::map<std::string, Fn> t; return t; }
    inline std::string fname(const std::string &form, unsigned long p, unsigned long d) {
        return form + "_" + std::to_string(p) + "_" + std::to_string(d);
    }
    struct Reg { Reg(const char *form, unsigned long p, unsigned long d, Fn f) { table()[fname(form, p, d)] = f; } };
    inline void load(const rp::Val &v) {
        Curve &c = curves()[v[1][0].s];
        Sys &s = c[v[1][1].s];
        const std::string &kind = v[1][2].s;
        Pt p = tup(v[2]);
        for (auto &t : v[3].e) {
            Tup x = tup(t);
            if (kind == "in") { s.in[p].push_back(x); s.stands[x] = p; }
            else if (kind == "out") s.stands[x] = p;
            else s.any[x] = true;
        }
    }
    inline void handle(const rp::Val &v) {
        if (v[0].s == "rep") return;
        const std::string &ks = v[1][0].s;
        Key k = key(ks);
        auto f = table().find(fname(k.form, k.p, k.d));
        if (f == table().end()) throw std::runtime_error("no instantiation for " + ks);
        auto c = curves().find(ks);
        if (c == curves().end()) throw std::runtime_error("curve never described: " + ks);
        f->second(k, c->second, v);
    }
}    // namespace cvr
