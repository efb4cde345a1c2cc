// Registry of the generated types and what the library's classifiers said of them.
#pragma once
#include <initializer_list>
#include <map>
#include <string>
#include <utility>
#include <vector>
namespace types {
    struct plain { };
    struct number { operator int() const; };
    struct entry {
        std::string what;
        std::map<std::string, bool> says;
    };
    inline std::map<std::string, std::vector<entry>> &all() { static std::map<std::string, std::vector<entry>> m; return m; }
    struct reg {
        reg(const char *k, std::initializer_list<std::pair<const char *, bool>> l, const char *what = "") {
            entry e {what, {}};
            for (auto &x : l) e.says[x.first] = x.second;
            all()[k].push_back(e);
        }
    };
}
