#include <unordered_map>
#include "Caitlyn/__Core/Collections.h"
#include "Caitlyn/__Core/Memory/Utility.h"
#include "Caitlyn/__Core/Utility.h"
#include "Caitlyn/__Core/Numeric/Utility/Limits.h"
#include "oracle.h"
#include <chrono>
#include <cmath>
#include <limits>
using namespace Caitlyn;
// a case: "map", then keys and values in turn; "bool", the bits of a double; "random" and two bounds
template <class M> static void check(M& m, const char* what) {
    std::vector<typename M::key_type> k; std::vector<typename M::mapped_type> v;
    for (auto& e : m) { k.push_back(e.first); v.push_back(e.second); }
    const M before(m);
    REQ(GetMapKeys(m) == k, what << ": GetMapKeys differs"); REQ(m == before, what << ": GetMapKeys changed the map"); REQ(GetMapValues(m) == v, what << ": GetMapValues differs"); REQ(m == before, what << ": the map was changed");
    const M& c = m;
    REQ(GetMapKeys(c) == k && GetMapValues(c) == v, what << ": on a const map"); REQ(m == before, what << ": the map was changed");
    M a(m), b(m);
    if (!m.empty() && std::is_same<M, std::map<std::string, std::string>>::value) { REQ(GetMapKeys(std::move(a)) == k && GetMapValues(std::move(b)) == v, what << ": on a temporary"); }
}
struct Odd { char c[7]; };
template <class T> static void sizes(const T& v) {
    REQ(SizeOf<T>() == sizeof(T) && SizeOf<T>(MemoryFormat::Byte) == sizeof(T) && SizeOf<T>(MemoryFormat::Bit) == sizeof(T) * 8, "SizeOf<T>() for a type of " << sizeof(T) << " bytes");
    REQ(SizeOf(v) == sizeof(T) && SizeOf(v, MemoryFormat::Byte) == sizeof(T) && SizeOf(v, MemoryFormat::Bit) == sizeof(T) * 8, "SizeOf(value) for a value of " << sizeof(T) << " bytes");
}
template <class T> static void random_in(const std::string& x, const std::string& y, const char* what) {
    T lo = T(std::stoull(x)), hi = T(std::stoull(y)); if (hi < lo) std::swap(lo, hi);
    const uint64_t span = uint64_t(hi) - uint64_t(lo); const bool few = span < 4; uint64_t seen = 0, n = 0; const uint64_t all = few ? (2ull << span) - 1 : 3;
    // every value of a small range turns up, and both halves of a larger one
    for (const auto t0 = std::chrono::steady_clock::now(); n < 4 || (seen != all && (n < 4000 || std::chrono::steady_clock::now() - t0 < std::chrono::seconds(1))); ++n) {
        T r = Random<T>(lo, hi); REQ(lo <= r && r <= hi, "Random<" << what << ">(" << +lo << ", " << +hi << ") is " << +r); const uint64_t at = uint64_t(r) - uint64_t(lo); seen |= 1ull << (few ? at : at > span / 2);
    }
    REQ(seen == all, "Random<" << what << ">(" << +lo << ", " << +hi << ") leaves out some " << (few ? "values" : "half of the range") << " in " << n << " draws");
}
template <class T> static void real_in(const std::string& x, const std::string& y, const char* what) {
    uint64_t u = std::stoull(x), v = std::stoull(y);
    T lo = std::ldexp(T(int64_t(u)), -int(u % 61)), hi = std::ldexp(T(int64_t(v)), -int(v % 61)); if (hi < lo) std::swap(lo, hi);
    const T mid = lo / 2 + hi / 2; const bool wide = lo < mid && mid < hi && std::isfinite(mid) && mid - lo > std::fabs(mid) / 1024 && hi - mid > std::fabs(mid) / 1024 && mid - lo > std::numeric_limits<T>::min() * 4; int seen = wide ? 0 : 3, n = 0;
    for (const auto t0 = std::chrono::steady_clock::now(); n < 4 || (seen != 3 && (n < 4000 || std::chrono::steady_clock::now() - t0 < std::chrono::seconds(1))); ++n) {
        T r = Random<T>(lo, hi); REQ(lo <= r && r <= hi, "Random<" << what << ">(" << lo << ", " << hi << ") is " << r); seen |= r < mid ? 1 : 2;
    }
    REQ(seen == 3, "Random<" << what << ">(" << lo << ", " << hi << ") leaves out half of the range in " << n << " draws");
}
template <class T> static void limits(const char* what) {
    const bool s = T(-1) < T(0); const T hi = T(s ? (1ull << (sizeof(T) * 8 - 1)) - 1 : ~0ull), lo = s ? T(-hi - 1) : T(0);
    REQ(MinValue<T>() == lo && MaxValue<T>() == hi, "MinValue/MaxValue of " << what << ": " << +MinValue<T>() << ", " << +MaxValue<T>());
    REQ((ValueRange<T>() == std::pair<T, T>(lo, hi)), "ValueRange of " << what);
}
static void all_limits() {
    limits<signed char>("signed char"); limits<unsigned char>("unsigned char"); limits<short>("short"); limits<unsigned short>("unsigned short"); limits<int>("int"); limits<unsigned>("unsigned");
    limits<long>("long"); limits<unsigned long>("unsigned long"); limits<long long>("long long"); limits<unsigned long long>("unsigned long long");
}
void run_case(const Args& a) {
    if (a[0] == "map" && a.size() < 2) all_limits();
    if (a[0] == "random") {
        random_in<Int16>(a[1], a[2], "Int16"); random_in<UInt16>(a[1], a[2], "UInt16"); random_in<Int32>(a[1], a[2], "Int32");
        random_in<UInt32>(a[1], a[2], "UInt32"); random_in<Int64>(a[1], a[2], "Int64"); random_in<UInt64>(a[1], a[2], "UInt64");
        real_in<Float>(a[1], a[2], "Float"); real_in<Double>(a[1], a[2], "Double"); real_in<Decimal>(a[1], a[2], "Decimal");
    } else if (a[0] == "map") {
        std::map<std::string, std::string> m; std::map<int, bool> mb; std::unordered_map<std::string, size_t> mu; std::map<size_t, std::vector<std::string>> mv; std::multimap<std::string, int> mm;
        for (size_t i = 1; i + 1 < a.size(); i += 2) { m[a[i]] = a[i + 1]; mb[int(i) * (a[i].size() % 2 ? 1 : -1)] = a[i + 1].size() % 2; mu[a[i]] = i; mv[a[i].size()].push_back(a[i + 1]); mm.insert(std::make_pair(a[i], int(a[i + 1].size()))); }
        check(m, "map of strings"); check(mb, "map to bool"); check(mu, "unordered map"); check(mv, "map to vectors"); check(mm, "multimap");
        std::vector<std::string> w; std::string s; for (auto& x : a) { w.push_back(x); s += x; }
        sizes(w); sizes(s); sizes(m); sizes('c'); sizes(short(1)); sizes(1); sizes(1L); sizes(1.0); sizes(1.0L); sizes(Odd{}); sizes(&s); int arr[5] = {0}; sizes(arr); sizes(true);
    } else {
        uint64_t u = uint64_t(std::stoull(a[1])); double d; memcpy(&d, &u, 8);
        bool threw = false, other = false, r = false;
        try { r = RandomBoolean(d); } catch (const std::invalid_argument&) { threw = true; } catch (...) { other = true; }
        REQ(!other, "RandomBoolean(" << d << ") threw something else"); REQ(threw == !(d >= 0 && d <= 1), "RandomBoolean(" << d << (threw ? ") refused" : ") accepted"));
        if (!threw) { REQ(!(d == 0 && r), "RandomBoolean(0) is true"); REQ(!(d == 1 && !r), "RandomBoolean(1) is false");
            if (d >= 0.0009 && d <= 0.9991) { int seen = 0, n = 0; for (const auto t0 = std::chrono::steady_clock::now(); seen != 3 && (n < 60000 || std::chrono::steady_clock::now() - t0 < std::chrono::seconds(1)); ++n) seen |= RandomBoolean(d) ? 1 : 2;
                REQ(seen == 3, "RandomBoolean(" << d << ") is always " << (seen == 1) << " in " << n << " draws"); }
            if (d == 0.125 || d == 0.25 || d == 0.75 || d == 0.875) { // the frequency: 4000 draws, more than ten standard deviations of room
                int yes = 0, n = 0; auto t0 = std::chrono::steady_clock::now(), last = t0;
                for (; n < 4000 && last - t0 < std::chrono::seconds(2);) { const bool b = RandomBoolean(d); auto t = std::chrono::steady_clock::now(); if (t != last) { ++n; yes += b; } last = t; }
                REQ(n < 4000 || std::fabs(yes / 4000.0 - d) < 0.09, "RandomBoolean(" << d << ") is true " << yes << " times in 4000"); } }
    }
}
static std::string bits(double d) { uint64_t u; memcpy(&u, &d, 8); return std::to_string(u); }
void search(Search& s) {
    for (double d : {0.0, -0.0, 1.0, 0.5, 0.125, 0.25, 0.75, 0.875, 0.0009765625, 0.9990234375, 0.0078125, 0.9921875, 1.0000000000000002, 0.9999999999999999, -1e-300, 5e-324, -5e-324, 2.0, -1.0, 100.0, 1e300, -1e300, (double)INFINITY, -(double)INFINITY, (double)NAN, -(double)NAN}) s.t({"bool", bits(d)});
    s.t({"map"}); s.t({"map", "", ""}); s.t({"map", "a", "1"}); s.t({"map", "b", "1", "a", "2", "b", "3"});
    for (const char* x : {"0", "1", "2", "32767", "32768", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615"})
        for (const char* y : {"0", "1", "9", "32767", "32768", "65535", "2147483647", "2147483648", "4294967295", "9223372036854775807", "9223372036854775808", "18446744073709551615", "32766", "65534", "2147483646", "4294967294", "9223372036854775806", "18446744073709551614"}) s.t({"random", x, y});
    while (!s.timeup()) {
        if (s.below(5) == 0) { uint64_t x = s.rng() >> s.below(64), y = s.coin() ? x + s.below(4) : s.rng() >> s.below(64); s.t({"random", std::to_string(x), std::to_string(y)}); continue; }
        if (s.below(5) == 0) { double d = std::ldexp(double(int64_t(s.rng())) / 9.3e18, int(s.below(6)) - 3); s.t({"bool", s.coin() ? bits(d) : std::to_string(uint64_t(s.rng()))}); }
        else { Args a{"map"}; for (size_t n = 2 * s.below(12); n; --n) { std::string w; for (size_t k = s.below(4); k; --k) w += char('a' + s.below(3)); a.push_back(w); } s.t(a); }
        if (!s.thorough && orc::count > 40000) break;
    }
}
