/* Shared plumbing of the conformance harnesses: script parsing, result output,
 * per-case isolation.  A script is a list of cases; a case is a list of
 * commands, one per line; every command yields exactly one JSON line. */
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <typeinfo>
#include <vector>
#include <unistd.h>
#include <sys/resource.h>
#include <cxxabi.h>
#if defined(__SANITIZE_ADDRESS__)
extern "C" std::size_t __sanitizer_get_current_allocated_bytes();
#endif

namespace vh {

inline std::string unhex(const std::string& t) {          // "x616263" -> "abc"
    std::string r;
    for (std::size_t i = 1; i + 1 < t.size(); i += 2)
        r.push_back(static_cast<char>(std::stoi(t.substr(i, 2), nullptr, 16)));
    return r;
}
inline std::string jstr(const std::string& s) {
    std::string r = "\"";
    char b[8];
    for (unsigned char c: s) {
        if (c == '"' || c == '\\') { r.push_back('\\'); r.push_back(static_cast<char>(c)); }
        else if (c < 32 || c > 126) { std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r.push_back(static_cast<char>(c));
    }
    return r + "\"";
}
inline std::string jnum(double v) {                        // exact
    char b[64];
    if (std::isnan(v)) return "\"nan\"";
    if (std::isinf(v)) return v > 0 ? "\"inf\"" : "\"-inf\"";
    if (v == std::floor(v) && std::fabs(v) < 1e9) {
        std::snprintf(b, sizeof b, "%lld", static_cast<long long>(v));
        return b;
    }
    std::snprintf(b, sizeof b, "\"%a\"", v);
    return b;
}
template<typename C> std::string jnums(const C& c) {
    std::string r = "["; bool first = true;
    for (const auto& v: c) { if (!first) r += ","; first = false; r += jnum(static_cast<double>(v)); }
    return r + "]";
}
inline std::string jarr(const std::vector<std::string>& c) {
    std::string r = "[";
    for (std::size_t i = 0; i < c.size(); ++i) { if (i) r += ","; r += c[i]; }
    return r + "]";
}

struct Args {
    std::vector<std::string> t;
    std::size_t i = 0;
    bool more() const { return i < t.size(); }
    std::string tok() { if (i >= t.size()) { std::fprintf(stderr, "harness: missing argument in '%s'\n", t.empty() ? "" : t[0].c_str()); std::exit(97); } return t[i++]; }
    std::string str() { return unhex(tok()); }
    long num() { return std::strtol(tok().c_str(), nullptr, 10); }
    double dbl() { return std::strtod(tok().c_str(), nullptr); }
    std::size_t sz() { return static_cast<std::size_t>(std::strtoull(tok().c_str(), nullptr, 10)); }
    std::vector<double> dbls() { std::vector<double> v(sz()); for (auto& x: v) x = dbl(); return v; }
    std::vector<std::size_t> szs() { std::vector<std::size_t> v(sz()); for (auto& x: v) x = sz(); return v; }
    std::vector<std::string> strs() { std::vector<std::string> v(sz()); for (auto& x: v) x = str(); return v; }
};

/* Names of exceptions are reported only by family: what a caller can catch. */
template<typename F> std::string guarded(F f) {
    try { return f(); }
    catch (const std::bad_alloc&)        { return "{\"ex\":\"bad_alloc\"}"; }
    catch (const std::length_error&)     { return "{\"ex\":\"length_error\"}"; }
    catch (const std::exception& e)      { (void) e; return "{\"ex\":\"error\"}"; }
    catch (...)                          { return "{\"ex\":\"other\"}"; }
}

/* What is allocated now; only the sanitized build knows. */
inline std::size_t allocated() {
#if defined(__SANITIZE_ADDRESS__)
    return __sanitizer_get_current_allocated_bytes();
#else
    return 0;
#endif
}

/* A world is created per case and interprets its commands. */
struct World {
    virtual ~World() = default;
    virtual std::string run(const std::string& op, Args& a) = 0;
};

/* Two cases at a time, each in a thread and a world of its own. */
inline int in_pairs(std::istream& in, FILE* out, std::size_t first, const std::function<World*()>& make, unsigned seconds) {
    std::vector<std::vector<std::string>> cases;
    for (std::string line; std::getline(in, line);) {
        if (line.empty()) continue;
        if (line[0] == '#') cases.emplace_back(); else cases.back().push_back(line);
    }
    for (std::size_t k = first; k < cases.size(); k += 2) {
        auto n = std::min<std::size_t>(2, cases.size() - k);
        std::vector<std::string> said[2];
        std::vector<std::thread> ts;
        for (std::size_t i = 0; i < n; ++i) std::fprintf(out, "#%zu\n", k + i);
        std::fflush(out);
        alarm(3 * seconds);
        for (std::size_t i = 0; i < n; ++i) ts.emplace_back([&, i] {
            std::unique_ptr<World> w(make());
            for (auto& line: cases[k + i]) {
                Args a; std::istringstream ls(line); std::string t;
                while (ls >> t) a.t.push_back(t);
                auto op = a.tok();
                said[i].push_back(guarded([&] { return w->run(op, a); }));
            }
        });
        for (auto& t: ts) t.join();
        for (std::size_t i = 0; i < n; ++i) { std::fprintf(out, "#%zu\n", k + i); for (auto& s: said[i]) std::fprintf(out, "%s\n", s.c_str()); }
        std::fflush(out);
    }
    alarm(0);
    std::fprintf(out, "#end\n");
    std::fclose(out);
    return 0;
}

inline int main_loop(int argc, char** argv, const std::function<World*()>& make,
                     unsigned seconds = 10, std::size_t mem_mb = 1500) {
    if (const char* e = std::getenv("VH_SECONDS")) seconds = static_cast<unsigned>(std::atoi(e));
    if (argc < 3) { std::fprintf(stderr, "usage: harness SCRIPT OUT [FIRST]\n"); return 96; }
    std::size_t first = argc > 3 ? std::strtoull(argv[3], nullptr, 10) : 0;
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
    if (mem_mb) { rlimit r{mem_mb << 20, mem_mb << 20}; setrlimit(RLIMIT_AS, &r); }
#endif
    { rlimit r{0, 0}; setrlimit(RLIMIT_CORE, &r); }
    // The library prints progress on cout: keep it away from the results.
    struct Nothing : std::streambuf {
        int overflow(int c) override { return c == EOF ? 0 : c; }
        std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
    };
    static Nothing nothing;
    std::cout.rdbuf(&nothing);
    std::ifstream in(argv[1]);
    if (!in) { std::fprintf(stderr, "harness: no script\n"); return 96; }
    FILE* out = std::fopen(argv[2], "a");
    if (!out) { std::fprintf(stderr, "harness: no output\n"); return 96; }
    std::string line;
    if (std::getenv("VH_PAIR")) return in_pairs(in, out, first, make, seconds);
    World* w = nullptr;
    std::size_t c = 0; bool active = false; long ncase = -1;
    const bool count = std::getenv("VH_COUNT") != nullptr;
    std::size_t before = 0;
    auto over = [&] {                                      // a case is over: nothing of it may be left
        delete w; w = nullptr;
        if (count && active) { std::fprintf(out, "#left %ld\n", static_cast<long>(allocated()) - static_cast<long>(before)); std::fflush(out); }
    };
    while (std::getline(in, line)) {
        if (line.empty()) continue;
        if (line[0] == '#') {                              // "#" starts a case
            over();
            ++ncase; c = static_cast<std::size_t>(ncase);
            active = c >= first;
            if (!active) continue;
            std::fprintf(out, "#%zu\n", c); std::fflush(out);
            alarm(seconds);
            before = allocated();
            w = make();
            continue;
        }
        if (!active) continue;
        Args a; std::istringstream ls(line); std::string t;
        while (ls >> t) a.t.push_back(t);
        auto op = a.tok();
        std::string r = guarded([&] { return w->run(op, a); });
        if (r.find("\"bad_alloc\"") != std::string::npos) _exit(98);
        std::fprintf(out, "%s\n", r.c_str());
        std::fflush(out);
    }
    over();
    alarm(0);
    std::fprintf(out, "#end\n");
    std::fclose(out);
    return 0;
}
} // namespace vh
#endif
