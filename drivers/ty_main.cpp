// Compares what the classifiers said of every generated or listed type with what was specified.
#include "types.hpp"
#include "common.hpp"
using rp::Val;
int main(int argc, char **argv) {
    return rp::run(argc, argv, [](const Val &c) {
        std::string key;
        if (c[0].s == "kind") key = c[2].s;
        else {
            key = c[1][0].s + " " + c[1][1].s;
            for (auto &m : c[2].e) key += " " + m[0].s + ":" + m[1].s;
        }
        auto it = types::all().find(key);
        if (it == types::all().end()) throw std::runtime_error("case: no such type: " + key);
        for (auto &t : it->second)
            for (auto &q : c[3].e) {
                auto a = t.says.find(q[0].s);
                if (a == t.says.end()) throw std::runtime_error("case: not asked: " + q[0].s);
                rp::report().check(a->second == q[1].b(), q[0].s + " of " + (t.what.empty() ? key : t.what), [&] { return std::string("says ") + (a->second ? "yes" : "no"); });
            }
    });
}
