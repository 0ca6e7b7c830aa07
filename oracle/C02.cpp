#include "strmodel.h"
#include "unicode_tables.h"
template <size_t N> static bool in(const unsigned (&t)[N][2], unsigned c) { for (auto& r : t) if (r[0] <= c && c <= r[1]) return true; return false; }
template <size_t N> static unsigned map1(const unsigned (&t)[N][2], unsigned c) { for (auto& r : t) if (r[0] == c) return r[1]; return c; }
void run_case(const Args& a) {
    using namespace Caitlyn;
    if (a[0] == "cp") {
        unsigned c = unsigned(strtoul(a[1].c_str(), nullptr, 10)); CodePoint p(c);
        bool up = in(t_upper, c), lo = in(t_lower, c);
        REQ(IsSpace(p) == in(t_space, c), "IsSpace(" << c << ")"); REQ(IsDigit(p) == in(t_digit, c), "IsDigit(" << c << ")");
        REQ(IsUppercase(p) == up, "IsUppercase(" << c << ")"); REQ(IsLowercase(p) == lo, "IsLowercase(" << c << ")");
        REQ(IsLetter(p) == (up || lo), "IsLetter(" << c << ")");
        REQ(ToDigit(p) == (c >= 48 && c <= 57 ? int(c) - 48 : -1), "ToDigit(" << c << ")");
        unsigned u = map1(t_toupper, c), l = map1(t_tolower, c);
        REQ(ToUppercase(p) == u, "ToUppercase(" << c << ") = " << ToUppercase(p)); REQ(ToLowercase(p) == l, "ToLowercase(" << c << ") = " << ToLowercase(p));
        if (c < 0x110000) {
            Char ch(p);
            REQ(ToUppercase(ch) == Char(CodePoint(u)) && ToLowercase(ch) == Char(CodePoint(l)), "Char case mapping of " << c);
        }
    } else {
        String s(a[1]); String copy(s); M m = model(s), U, L;
        for (size_t i = 0; i < s.size(); ++i) { unsigned c = s.At(i).GetCodePoint(); U.push_back(Char(CodePoint(map1(t_toupper, c))).str()); L.push_back(Char(CodePoint(map1(t_tolower, c))).str()); }
        same(s.ToUppercase(), U, "String::ToUppercase"); same(s.ToLowercase(), L, "String::ToLowercase"); same(s, m, "the mapped string");
    }
}
void search(Search& s) {
    for (unsigned c = 0; c < 0x30000; ++c) s.t({"cp", std::to_string(c)});
    for (unsigned c = 0x30000; c < 0x110000; c += s.thorough ? 1 : 61) s.t({"cp", std::to_string(c)});
    for (int i = 0; i < 40000; ++i) s.t({"cp", std::to_string(unsigned(s.rng()))});
    for (unsigned b = 16; b < 32; ++b) for (int d = -3; d <= 3; ++d) s.t({"cp", std::to_string(unsigned((1ull << b) + d))});
    for (int i = 0; i < 4000 || (s.thorough && !s.timeup()); ++i) { if (s.timeup()) break;
        std::string t = rnd_text(s, s.below(12)); for (int k = 0; k < 3; ++k) t += Char(Caitlyn::CodePoint(1 + s.below(0x2200))).str(); s.t({"str", t}); }
}
