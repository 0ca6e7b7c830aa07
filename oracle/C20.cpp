#include <chrono>
#include <iostream>
#include <map>
#include <vector>
#include <sstream>
#include <cstring>
#include <utility>
#include <thread>
#include "oracle.h"
#include "Caitlyn/__Core/String.h"
#define private public
#include "Caitlyn/__Testing/Types/TestRegistry.h"
#undef private
#include "Caitlyn/__Testing/Macro.h"
using namespace Caitlyn;
using namespace Caitlyn::Test;
// a case: runs, then suite, name, behaviour (a digit) for every registered test
static int behaviour[24]; static int called[24]; static std::vector<int> order;
struct Weird {};
struct MyErr : std::exception { const char* what() const noexcept override { return "\xff\xc0 my error"; } };
static bool fails(int b) { return b >= 6; }
static const char* nul() { return nullptr; }
static void act(int i) {
    ++called[i]; order.push_back(i);
    const char* x = "x"; const char* y = "y"; const char* z = nullptr;
    switch (behaviour[i]) {
        case 0: return;
        case 1: { ASSERT_TRUE(1 < 2); ASSERT_FALSE(2 < 1); return; }
        case 2: { ASSERT_EQ(1, 1); } { ASSERT_NE(1, 2); } { ASSERT_LT(1, 2); } { ASSERT_LE(2, 2); } return;
        case 3: { ASSERT_GT(2, 1); } { ASSERT_GE(2, 2); } return;
        case 4: ASSERT_STREQ(x, std::string("x").c_str()); ASSERT_STREQ(z, nul()); return;
        case 5: try { throw 1; } catch (int) {} return;
        case 6: throw std::runtime_error("oops");
        case 7: throw 42;
        case 8: throw "text";
        case 9: throw MyErr();
        case 10: throw std::runtime_error("\xff\xfe\x80");
        case 11: throw Weird();
        case 12: ASSERT_TRUE(false); return;
        case 13: ASSERT_FALSE(true); return;
        case 14: ASSERT_EQ(1, 2); return;
        case 15: ASSERT_NE(1, 1); return;
        case 16: ASSERT_LT(2, 2); return;
        case 17: ASSERT_LE(3, 2); return;
        case 18: ASSERT_GT(2, 2); return;
        case 19: ASSERT_GE(1, 2); return;
        case 20: ASSERT_STREQ(x, y); return;
        case 21: ASSERT_STREQ(x, z); return;
        case 22: ASSERT_STREQ(z, y); return;
        case 23: FAIL(); return;
        case 24: FAIL_MESSAGE() << "message"; return;
        case 25: throw std::string("");
        case 26: throw String("caitlyn");
        case 27: throw std::runtime_error(std::string(500, 'q'));
        case 28: throw std::runtime_error("");
        case 29: throw std::bad_alloc();
        case 30: throw std::logic_error("logic");
        case 31: throw std::out_of_range("range");
    }
}
template <int I> static void fn() { act(I); }
static TestFunction fns[24] = {fn<0>, fn<1>, fn<2>, fn<3>, fn<4>, fn<5>, fn<6>, fn<7>, fn<8>, fn<9>, fn<10>, fn<11>, fn<12>, fn<13>, fn<14>, fn<15>, fn<16>, fn<17>, fn<18>, fn<19>, fn<20>, fn<21>, fn<22>, fn<23>};
static bool has(const std::string& t, const std::string& w) { return t.find(w) != std::string::npos; }
static size_t times(const std::string& t, const std::string& w) { size_t n = 0; for (size_t p = t.find(w); p != std::string::npos; p = t.find(w, p + 1)) ++n; return n; }
// registered by the macros, before main
static int macro_calls[5]; static int fixtures; static bool fresh = true;
struct OrcFixture { int v = 7; OrcFixture() { ++fixtures; } ~OrcFixture() { --fixtures; } };
TEST(OrcSuite, First) { ++macro_calls[0]; }
TEST(OrcSuite, Second) { ++macro_calls[1]; ASSERT_TRUE(false); }
TEST(OrcOther, First) { ++macro_calls[2]; }
TEST_F(OrcFixture, Fix) { ++macro_calls[3]; fresh = fresh && fixtures == 1 && v == 7; v = 8; }
TEST_F(OrcFixture, FixBad) { ++macro_calls[4]; fresh = fresh && fixtures == 1 && v == 7; v = 9; throw 1; }
static void macros(int runs) {
    TestRegistry& r = TestRegistry::Instance(); REQ(&r == &TestRegistry::Instance(), "two registries");
    { TestRegistry* o = nullptr; std::thread([&] { o = &TestRegistry::Instance(); }).join(); REQ(o == &r, "another thread has another registry"); }
    std::ostringstream all; for (auto& x : r.tests_) for (auto& t : x.second) all << x.first << ":" << t.suite_name << "." << t.test_name << " ";
    REQ(all.str() == "OrcFixture:OrcFixture.Fix OrcFixture:OrcFixture.FixBad OrcOther:OrcOther.First OrcSuite:OrcSuite.First OrcSuite:OrcSuite.Second ", "the macros registered " << all.str());
    for (int& c : macro_calls) c = 0;
    for (int i = 1; i <= runs; ++i) {
        std::ostringstream out; std::streambuf* o = std::cout.rdbuf(out.rdbuf()); int ret = -1; bool threw = false;
        try { ret = r.RunAll(); } catch (...) { threw = true; }
        std::cout.rdbuf(o);
        REQ(!threw && ret != 0, "RunAll of the macros' tests");
        for (int k = 0; k < 5; ++k) REQ(macro_calls[k] == i, "the macros' test " << k << " ran " << macro_calls[k] << " times in " << i << " runs");
        REQ(fresh && fixtures == 0, "a TEST_F test does not run in a new object of its fixture");
    }
}
static size_t ran_many; static void good_one() { ++ran_many; } static void bad_one() { ++ran_many; throw 1; }
static void many(size_t good, size_t bad) {
    TestRegistry* reg = new TestRegistry(); struct D { TestRegistry* r; ~D() { delete r; } } d{reg};
    const String s[3] = {String("S"), String("T"), String("U")}; const String x("x");
    for (size_t i = 0; i < good + bad; ++i) reg->AddTest(s[i % 3], x, i < good ? good_one : bad_one);
    ran_many = 0; std::ostringstream out; std::streambuf* o = std::cout.rdbuf(out.rdbuf()); int r = -1; bool threw = false;
    try { r = reg->RunAll(); } catch (...) { threw = true; }
    std::cout.rdbuf(o);
    REQ(!threw && ran_many == good + bad, ran_many << " calls of " << good + bad << " tests");
    REQ((r != 0) == (bad > 0), "exit code " << r << " with " << bad << " failing tests"); REQ((r & 255) != 0 || bad == 0, "the process exits with 0 although " << bad << " tests failed");
    REQ(times(out.str(), "[  FAILED  ] ") == bad + (bad ? 1 : 0), "failing tests listed"); if (good) REQ(has(out.str(), "[  PASSED  ] " + std::to_string(good) + " test"), "passed tests of " << good);
}
void run_case(const Args& a) {
    if (a[0] == "macros") return macros(int(ival(a[1])));
    if (a[0] == "many") return many(size_t(ival(a[1])), size_t(ival(a[2])));
    int runs = int(ival(a[0])); size_t n = (a.size() - 1) / 3; if (n > 24) n = 24;
    TestRegistry* reg = new TestRegistry();
    struct D { TestRegistry* r; ~D() { delete r; } } d{reg};
    std::vector<std::string> label; size_t bad = 0; std::vector<size_t> f; std::vector<int> want_calls(24);
    for (size_t i = 0; i < n; ++i) {
        f.push_back(ival(a[3 + 3 * i]) >= 32 && i ? f[i - 1] : i); ++want_calls[f[i]];
        reg->AddTest(String(a[1 + 3 * i]), String(a[2 + 3 * i]), fns[f[i]]); label.push_back(a[1 + 3 * i] + "." + a[2 + 3 * i]);
    }
    for (int run = 0; run < runs; ++run) {
        bad = 0;
        for (size_t i = 0; i < n; ++i) { behaviour[i] = int(ival(a[3 + 3 * i])) % 32; if (run % 2) behaviour[i] = (behaviour[i] + 5 * run) % 32; called[i] = 0; }
        for (size_t i = 0; i < n; ++i) bad += fails(behaviour[f[i]]);
        order.clear();
        std::ostringstream out, err; std::streambuf *o = std::cout.rdbuf(out.rdbuf()), *e = std::cerr.rdbuf(err.rdbuf());
        int r = -1; bool threw = false;
        try { r = reg->RunAll(); } catch (...) { threw = true; }
        std::cout.rdbuf(o); std::cerr.rdbuf(e);
        REQ(!threw, "an exception of a test left RunAll");
        for (size_t i = 0; i < n; ++i) REQ(called[i] == want_calls[i], "test " << i << " of " << n << " (" << label[i] << ") was called " << called[i] << " times");
        REQ((r != 0) == (bad > 0), "exit code " << r << " with " << bad << " failing tests");
        const std::string t = out.str(); const size_t good = n - bad;
        REQ(has(t, "[  PASSED  ] ") == (good > 0), "passed line"); REQ(has(t, "[  FAILED  ] ") == (bad > 0), "failed line");
        if (good) REQ(has(t, "[  PASSED  ] " + std::to_string(good) + " test" + (good == 1 ? "" : "s") + ".\n"), "reports another number of passed tests than " << good << ": " << t.substr(t.size() > 300 ? t.size() - 300 : 0));
        if (bad) REQ(has(t, "[  FAILED  ] " + std::to_string(bad) + " test" + (bad == 1 ? "" : "s") + ", listed below:\n"), "reports another number of failed tests than " << bad);
        REQ(has(t, "\n" + std::to_string(bad) + " FAILED TEST" + (bad == 1 ? "" : "S") + "\n"), "last line");
        std::map<std::string, size_t> per; for (size_t i = 0; i < n; ++i) ++per[a[1 + 3 * i]];
        const std::string count = std::to_string(n) + " tests from " + std::to_string(per.size()) + " test cases";
        REQ(t.compare(0, 21 + count.size() + 2, "[==========] Running " + count + ".\n") == 0, "first line: " << t.substr(0, 80));
        REQ(has(t, "[==========] " + count + " ran. ("), "line of the end");
        for (auto& p : per) REQ(times(t, "[----------] " + std::to_string(p.second) + " tests from " + p.first + "\n") == 1 && times(t, "[----------] " + std::to_string(p.second) + " tests from " + p.first + " (") == 1, "suite lines of " << p.first);
        for (size_t i = 0; i < n; ++i) if (fails(behaviour[f[i]])) {
            const char* why[] = {"oops", "Unknown error", "Unknown error", "\xff\xc0 my error", "\xff\xfe\x80", "Unknown error"};
            int b = behaviour[f[i]]; std::string head = "[     FAIL ] " + label[i] + " (", info = "[     INFO ] " + (b < 12 ? std::string(why[b - 6]) + "\n" : "");
            bool found = false; for (size_t p = t.find(head); p != std::string::npos && !found; p = t.find(head, p + 1)) { size_t q = t.find('\n', p); found = q != std::string::npos && t.compare(q + 1, info.size(), info) == 0; }
            REQ(found, "reason given for " << label[i]);
        }
        for (size_t p = t.find("[ RUN      ] "); p != std::string::npos; p = t.find("[ RUN      ] ", p + 1)) {
            size_t q = t.find('\n', p); REQ(q != std::string::npos, "last RUN line"); std::string x = t.substr(p + 13, q - p - 13);
            REQ(t.compare(q + 1, 15 + x.size(), "[       OK ] " + x + " (") == 0 || t.compare(q + 1, 15 + x.size(), "[     FAIL ] " + x + " (") == 0, "the line after the RUN line of " << x);
        }
        std::map<std::string, size_t> want, ok;
        for (size_t i = 0; i < n; ++i) { want[label[i]] += fails(behaviour[f[i]]); ok[label[i]] += !fails(behaviour[f[i]]); }
        for (auto& w : want) {
            REQ(times(t, "[ RUN      ] " + w.first + "\n") == w.second + ok[w.first], w.first << " is announced another number of times than it runs");
            REQ(times(t, "[  FAILED  ] " + w.first + "\n") == w.second, w.first << " is listed as failed " << times(t, "[  FAILED  ] " + w.first + "\n") << " times, failed " << w.second << " times");
            REQ(times(t, "[       OK ] " + w.first + " (") == ok[w.first], w.first << " is reported as passed another number of times than " << ok[w.first]);
            REQ(times(t, "[     FAIL ] " + w.first + " (") == w.second, w.first << " is reported as failed another number of times than " << w.second);
        }
    }
}
void search(Search& s) {
    for (int n : {1, 127, 128, 255, 256, 257, 512, 1000}) { s.t({"many", "0", num(n)}); s.t({"many", num(n), "0"}); s.t({"many", num(n), "1"}); }
    if (s.thorough) { s.t({"many", "0", "65536"}); s.t({"many", "65536", "1"}); }
    s.t({"macros", "1"}); s.t({"macros", "3"});
    s.t({"1"}); s.t({"2"});
    for (int b = 0; b < 32; ++b) s.t({"1", "S", "t", num(b)});
    for (int b = 0; b < 32; ++b) s.t({"2", "S", "t", "0", "S", "u", num(b), "S", "v", "0", "T", "a", "0"});
    for (int b = 6; b < 32; ++b) s.t({"3", "S", "t", num(b), "R", "u", num(b)});
    s.t({"1", "S", "t", "0", "S", "t", "40"}); s.t({"1", "S", "t", "6", "S", "t", "40"}); s.t({"1", "S", "t", "0", "R", "t", "40", "S", "u", "40"});
    while (!s.timeup()) {
        Args a{num(1 + (long long)s.below(3))}; size_t n = s.below(24); int mode = int(s.below(3));
        for (size_t i = 0; i < n; ++i) { a.push_back(std::string("S") + char('a' + s.below(1 + n / 3))); a.push_back(std::string("t") + char('a' + s.below(20))); a.push_back(num((long long)(mode == 0 ? s.below(6) : mode == 1 ? s.below(32) : s.below(8) ? s.below(6) : s.below(40)))); }
        s.t(a); if (!s.thorough && orc::count > 6000) break;
    }
}
