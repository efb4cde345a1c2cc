// Shared replay infrastructure: parses the transitions exported by the specifications,
// collects disagreements, writes a JSON report.  Nothing here knows the library under test.
#pragma once
#include <csignal>
#include <csetjmp>
#include <sys/time.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <vector>

namespace rp {
    // ------------------------------------------------------------------ values
    // A value is an atom (integer / string / TRUE / FALSE token) or a tuple.
    struct Val {
        bool atom = false;
        std::string s;
        std::vector<Val> e;
        std::size_t size() const { return e.size(); }
        const Val &operator[](std::size_t i) const {
            if (i >= e.size())
                throw std::runtime_error("case: missing element");
            return e[i];
        }
        long i() const { return std::strtol(s.c_str(), nullptr, 10); }
        bool b() const { return s == "TRUE" || s == "true"; }
    };
    struct Parser {
        const char *p, *end;
        explicit Parser(const std::string &t) : p(t.data()), end(t.data() + t.size()) { }
        void ws() {
            while (p < end && (*p == ' ' || *p == '"' || *p == '\\' || *p == ',' || *p == '\t' || *p == '\r'))
                ++p;
        }
        bool open() {
            ws();
            if (p + 1 < end && p[0] == '<' && p[1] == '<') { p += 2; return true; }
            if (p < end && *p == '[') { ++p; return true; }
            return false;
        }
        bool close() {
            ws();
            if (p + 1 < end && p[0] == '>' && p[1] == '>') { p += 2; return true; }
            if (p < end && *p == ']') { ++p; return true; }
            return false;
        }
        Val parse() {
            Val v;
            if (open()) {
                while (!close()) {
                    if (p >= end)
                        throw std::runtime_error("case: unterminated tuple");
                    v.e.push_back(parse());
                }
                return v;
            }
            v.atom = true;
            while (p < end && *p != ',' && *p != '>' && *p != ']' && *p != '"' && *p != ' ' && *p != '\\')
                v.s.push_back(*p++);
            return v;
        }
    };
    inline Val parse(const std::string &line) { return Parser(line).parse(); }

    // ------------------------------------------------------------------ report
    struct Report {
        std::map<std::string, long> count;      // checks evaluated per key
        long fails = 0;
        std::vector<std::string> failures;      // "key<TAB>detail<TAB>line"
        std::map<std::string, long> failkeys;
        const std::string *line = nullptr;
        long cases = 0;
        void check(bool ok, const std::string &key, const std::function<std::string()> &detail) {
            ++count[key];
            if (ok)
                return;
            fail(key, detail());
        }
        void fail(const std::string &key, const std::string &detail) {
            ++fails;
            if (++failkeys[key] <= 400 && failures.size() < 2000)
                failures.push_back(key + "\t" + detail + "\t" + (line ? *line : std::string()));
        }
        static std::string esc(const std::string &s) {
            std::string o;
            for (char c : s) {
                if (c == '"' || c == '\\') { o.push_back('\\'); o.push_back(c); }
                else if (c == '\n') o += "\\n";
                else if (c == '\t') o += "\\t";
                else if ((unsigned char)c < 32) o += ' ';
                else o.push_back(c);
            }
            return o;
        }
        void write(const char *path) const {
            std::ofstream f(path);
            long total = 0;
            f << "{\"cases\": " << cases << ", \"fails\": " << fails << ", \"counts\": {";
            bool first = true;
            for (auto &k : count) {
                f << (first ? "" : ", ") << '"' << esc(k.first) << "\": " << k.second;
                first = false;
                total += k.second;
            }
            f << "}, \"total\": " << total << ", \"failkeys\": {";
            first = true;
            for (auto &k : failkeys) {
                f << (first ? "" : ", ") << '"' << esc(k.first) << "\": " << k.second;
                first = false;
            }
            f << "}, \"failures\": [";
            first = true;
            for (auto &s : failures) {
                f << (first ? "" : ",\n") << '"' << esc(s) << '"';
                first = false;
            }
            f << "]}\n";
        }
    };
    inline Report &report() { static Report r; return r; }

    // ------------------------------------------------------------------ watchdog
    // CPU-time bound around one call of the code under test; an expired bound is reported as
    // non-termination and the run goes on with the next case.
    inline sigjmp_buf &jb() { static sigjmp_buf b; return b; }
    inline volatile sig_atomic_t &armed() { static volatile sig_atomic_t a = 0; return a; }
    inline void on_alarm(int sig) {
        if (armed()) { armed() = 0; siglongjmp(jb(), sig); }
        if (sig != SIGVTALRM) { std::signal(sig, SIG_DFL); raise(sig); }
    }
    inline void timer(double sec) {
        itimerval t {};
        t.it_value.tv_sec = (long)sec;
        t.it_value.tv_usec = (long)((sec - (long)sec) * 1e6);
        setitimer(ITIMER_VIRTUAL, &t, nullptr);
    }
    // Runs f; returns "" or what went wrong ("did not terminate", "crashed", "threw").
    template<typename F> std::string guarded(double cpu_seconds, F &&f) {
        struct sigaction sa {};
        sa.sa_handler = on_alarm;
        sa.sa_flags = SA_NODEFER;
        for (int s : {SIGVTALRM, SIGSEGV, SIGFPE, SIGABRT, SIGBUS, SIGILL})
            sigaction(s, &sa, nullptr);
        int sig = sigsetjmp(jb(), 1);
        if (sig == 0) {
            armed() = 1;
            timer(cpu_seconds);
            std::string r;
            try { f(); }
            catch (const std::exception &e) { r = std::string("threw ") + e.what(); }
            catch (const char *e) { r = std::string("threw ") + e; }
            catch (...) { r = "threw"; }
            timer(0);
            armed() = 0;
            return r;
        }
        timer(0);
        if (sig == SIGVTALRM) return "did not terminate";
        return "crashed with signal " + std::to_string(sig);
    }

    // ------------------------------------------------------------------ main loop
    using Handler = std::function<void(const Val &)>;
    inline int run(int argc, char **argv, const Handler &h, double cpu = 20) {
        if (argc < 3) { std::cerr << "usage: driver CASES REPORT\n"; return 2; }
        std::ifstream in(argv[1]);
        std::string line;
        Report &r = report();
        r.line = &line;
        while (std::getline(in, line)) {
            if (line.empty())
                continue;
            ++r.cases;
            Val v = parse(line);
            std::string op = v.size() ? v[0].s : std::string("?");
            std::string bad = guarded(cpu, [&] { h(v); });
            if (!bad.empty())
                r.fail(op, bad);
        }
        r.line = nullptr;
        r.write(argv[2]);
        return 0;
    }
    template<typename T> std::string str(const T &x) { std::ostringstream o; o.precision(17); o << x; return o.str(); }
}    // namespace rp
