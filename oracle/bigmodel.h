// independent reference for integers: decimal text, residues modulo two primes, comparison of texts
#pragma once
#include "oracle.h"
#include "Caitlyn/__Core/String.h"
#include "Caitlyn/__Numeric/Types.h"
using namespace Caitlyn;
typedef unsigned __int128 u128; typedef uint64_t u64;
static const u64 PR[2] = {2305843009213693951ull, 4611686018427387847ull};
struct Int { std::string t; };        // canonical decimal text
static std::string canon(const std::string& s) {       // of [+-]?digits
    size_t i = 0; bool n = false; if (i < s.size() && (s[i] == '-' || s[i] == '+')) n = s[i++] == '-';
    while (i < s.size() && s[i] == '0') ++i;
    std::string d = s.substr(i); return d.empty() ? "0" : (n ? "-" : "") + d;
}
static bool numeral(const std::string& s) { size_t i = !s.empty() && (s[0] == '-' || s[0] == '+'); if (i == s.size()) return false; for (; i < s.size(); ++i) if (s[i] < '0' || s[i] > '9') return false; return true; }
static bool isneg(const std::string& c) { return c[0] == '-'; }
static std::string absx(const std::string& c) { return isneg(c) ? c.substr(1) : c; }
static int cmpabs(const std::string& a, const std::string& b) { if (a.size() != b.size()) return a.size() < b.size() ? -1 : 1; int r = a.compare(b); return r < 0 ? -1 : r > 0; }
static int cmpx(const std::string& a, const std::string& b) { if (isneg(a) != isneg(b)) return isneg(a) ? -1 : 1; int c = cmpabs(absx(a), absx(b)); return isneg(a) ? -c : c; }
static u64 mulm(u64 a, u64 b, u64 p) { return u64(u128(a) * b % p); }
static u64 res(const std::string& c, u64 p) { u64 v = 0; for (char ch : absx(c)) v = u64((u128(v) * 10 + u64(ch - '0')) % p); return isneg(c) && v ? p - v : v; }
static std::string txt(const BigInteger& b) { return b.ToString().str(); }
static std::string good(const BigInteger& b, const char* what) { std::string t = txt(b); REQ(numeral(t) && canon(t) == t, what << " prints " << show(t)); return t; }
static BigInteger big(const std::string& s) { return BigInteger(s.c_str()); }
static void eqres(const std::string& r, u64 w0, u64 w1, const std::string& what) { REQ(res(r, PR[0]) == w0 && res(r, PR[1]) == w1, what << " gave " << r); }
static std::string rnd_int(Search& s) {
    std::string t; size_t k = s.below(10), n = k < 6 ? 1 + s.below(4) : k < 9 ? 1 + s.below(25) : 1 + s.below(120);
    switch (s.below(6)) {
        case 0: t = "1" + std::string(n - 1, '0'); break;
        case 1: t = std::string(n, '9'); break;
        case 2: { for (size_t i = 0; i < n; ++i) t += s.coin() ? '0' : '9'; break; }
        default: for (size_t i = 0; i < n; ++i) t += char('0' + s.below(10));
    }
    if (s.coin()) t = "-" + t;
    return canon(t);
}
