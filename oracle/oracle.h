// Replay harness: runs the real code of /repo on concrete cases and compares with an independent oracle.
// A case is a list of byte strings.  "search" looks for a failing case, "replay" runs one again.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <random>
#include <chrono>
#include <sstream>
#include <iostream>
#include <stdexcept>
#include <functional>
#include <algorithm>
#include <typeinfo>
#include <csignal>
#include <unistd.h>
#include <fcntl.h>
#include "dict.h"   // integer and string literals of the sources, written by the check

typedef std::vector<std::string> Args;
struct Fail { std::string msg; };
[[noreturn]] inline void fail(const std::string& m) { throw Fail{m}; }
#define REQ(cond, msg) do { if (!(cond)) { std::ostringstream o_; o_ << msg; fail(o_.str()); } } while (0)

void run_case(const Args& a);      // throws Fail when the real code disagrees with the oracle
struct Search;
void search(Search& s);

inline std::string show(const std::string& s) {
    std::string r = "\""; char b[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
        else if (c >= 32 && c < 127) r += char(c);
        else { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
    }
    return r + "\"";
}
inline std::string num(long long v) { return std::to_string(v); }
inline long long ival(const std::string& s) { return strtoll(s.c_str(), nullptr, 10); }

namespace orc {
static const Args* cur = nullptr;
static const char* outfile = nullptr;
static long long count = 0, distinct = 0;
static volatile long long ticks_seen = -1; static volatile int stuck = 0;
static std::vector<std::string> samples;
inline void write_case(const char* why) {
    if (!outfile || !cur) return;
    int fd = open(outfile, O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd < 0) return;
    auto put = [&](const char* p, size_t n) { while (n) { ssize_t k = write(fd, p, n); if (k <= 0) break; p += k; n -= size_t(k); } };
    put("why: ", 5);
    for (const char* p = why; *p; ++p) put(*p == '\n' ? " " : p, 1);
    put("\n", 1);
    for (auto& a : *cur) {
        put("arg: ", 5);
        char b[3];
        for (unsigned char c : a) { b[0] = "0123456789abcdef"[c >> 4]; b[1] = "0123456789abcdef"[c & 15]; put(b, 2); }
        put("  # ", 4);
        for (unsigned char c : a) { char d = (c >= 32 && c < 127) ? char(c) : '.'; put(&d, 1); }
        put("\n", 1);
    }
    close(fd);
}
inline void on_death() { write_case("the process died (memory or arithmetic error reported by the sanitizer)"); }
inline void on_sig(int s) {
    static char b[64]; snprintf(b, sizeof b, "the process died with signal %d", s);
    write_case(b); _exit(67);
}
inline void on_alarm(int) {
    if (ticks_seen == count) { if (++stuck >= 8) { write_case("the call did not terminate within 8 seconds"); _exit(68); } }
    else { ticks_seen = count; stuck = 0; }
    alarm(1);
}
}
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

struct Search {
    std::mt19937_64 rng; double secs; bool thorough;
    std::chrono::steady_clock::time_point t0;
    std::set<uint64_t> seen;
    bool timeup() const { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs; }
    uint64_t below(uint64_t n) { return n ? rng() % n : 0; }
    bool coin(int n = 2) { return below(uint64_t(n)) == 0; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    void t(const Args& a) {
        orc::cur = &a; ++orc::count;
        size_t h = 1469598103934665603ull;
        for (auto& s : a) { for (unsigned char c : s) { h = (h ^ c) * 1099511628211ull; } h = (h ^ 256) * 1099511628211ull; }
        if (seen.size() < 4000000 && seen.insert(h).second) { ++orc::distinct;
            if (orc::samples.size() < 8 && (orc::distinct & (orc::distinct - 1)) == 0) {
                std::string s; for (auto& x : a) s += (s.empty() ? "" : " ") + show(x.size() > 60 ? x.substr(0, 60) : x); orc::samples.push_back(s); } }
        try { run_case(a); }
        catch (const Fail& f) { report(f.msg); }
        catch (const std::exception& e) { report(std::string("unexpected exception ") + typeid(e).name() + ": " + e.what()); }
        catch (...) { report("unexpected exception of unknown type"); }
    }
    void report(const std::string& m) { orc::write_case(m.c_str()); fprintf(stderr, "FAILING INPUT: %s\n", m.c_str()); fflush(stderr); _exit(1); }
    // helpers
    std::string bytes(size_t maxlen, const std::string& alphabet) {
        std::string s; size_t n = below(maxlen + 1);
        for (size_t i = 0; i < n; ++i) s += alphabet[below(alphabet.size())];
        return s;
    }
    long long dict_int() { return dict_ints[below(sizeof dict_ints / sizeof *dict_ints)]; }
    std::string dict_str() { auto& d = dict_strs[below(sizeof dict_strs / sizeof *dict_strs)]; return std::string(d.p, d.n); }
};

#include <pthread.h>
#ifndef ORACLE_STACK
#define ORACLE_STACK (512 << 10)   // a small stack keeps exceptions cheap under the address sanitizer
#endif
inline int real_main(int argc, char** argv) {
    std::ios::sync_with_stdio(true);
    if (argc < 2) return 2;
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(orc::on_death);
    for (int s : {SIGABRT, SIGILL, SIGTERM}) signal(s, orc::on_sig);
    signal(SIGALRM, orc::on_alarm); alarm(1);
    signal(SIGPIPE, SIG_IGN);
    std::string mode = argv[1];
    if (mode == "search" && argc >= 6) {
        Search s; s.rng.seed(strtoull(argv[2], nullptr, 10)); s.secs = atof(argv[3]); s.thorough = !strcmp(argv[4], "thorough");
        orc::outfile = argv[5]; s.t0 = std::chrono::steady_clock::now();
        search(s);
        FILE* o = argc > 6 ? fopen(argv[6], "w") : stdout;
        fprintf(o, "evaluations %lld\ndistinct %lld\n", orc::count, orc::distinct);
        for (auto& x : orc::samples) fprintf(o, "sample %s\n", x.c_str());
        if (o != stdout) fclose(o);
        return 0;
    }
    if (mode == "replay" && argc >= 3) {
        FILE* f = fopen(argv[2], "r"); if (!f) return 2;
        Args a; static char line[1 << 22];
        while (fgets(line, sizeof line, f)) {
            if (strncmp(line, "arg: ", 5)) continue;
            std::string v; char* p = line + 5;
            auto h = [](char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; };
            while (h(p[0]) >= 0 && h(p[1]) >= 0) { v += char(h(p[0]) * 16 + h(p[1])); p += 2; }
            a.push_back(v);
        }
        fclose(f);
        orc::cur = &a;
        try { run_case(a); } catch (const Fail& x) { fprintf(stderr, "FAILS: %s\n", x.msg.c_str()); return 1; }
        catch (const std::exception& e) { fprintf(stderr, "FAILS: unexpected exception %s\n", e.what()); return 1; }
        catch (...) { fprintf(stderr, "FAILS: unexpected exception\n"); return 1; }
        fprintf(stderr, "the case passes\n"); return 0;
    }
    return 2;
}

struct MainArgs { int c; char** v; int r; };
inline void* on_thread(void* p) { auto m = static_cast<MainArgs*>(p); m->r = real_main(m->c, m->v); return nullptr; }
int main(int argc, char** argv) {
    MainArgs m{argc, argv, 2}; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, ORACLE_STACK);
    pthread_t t; if (pthread_create(&t, &at, on_thread, &m)) return 2;
    pthread_join(t, nullptr); fflush(stdout); fflush(stderr); _exit(m.r);
}
