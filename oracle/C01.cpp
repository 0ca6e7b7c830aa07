#include <Caitlyn/__Core/String.h>
#include "oracle.h"
using Caitlyn::Char;
static std::string enc(uint32_t c) {
    std::string s;
    if (c == 0) return s;
    if (c < 0x80) s += char(c);
    else if (c < 0x800) { s += char(0xC0 + c / 64); s += char(0x80 + c % 64); }
    else if (c < 0x10000) { s += char(0xE0 + c / 4096); s += char(0x80 + c / 64 % 64); s += char(0x80 + c % 64); }
    else { s += char(0xF0 + c / 262144); s += char(0x80 + c / 4096 % 64); s += char(0x80 + c / 64 % 64); s += char(0x80 + c % 64); }
    return s;
}
static bool valid(const std::string& s) {
    if (s.empty()) return false;
    unsigned char b = (unsigned char)s[0];
    size_t n = b < 0x80 ? 1 : b < 0xC0 ? 0 : b < 0xE0 ? 2 : b < 0xF0 ? 3 : b < 0xF8 ? 4 : 0;
    if (n != s.size()) return false;
    for (size_t i = 1; i < n; ++i) if (((unsigned char)s[i] & 0xC0) != 0x80) return false;
    return true;
}
static void check_cp(const Char& c, uint32_t cp) {
    std::string e = enc(cp);
    REQ(c.str() == e, "bytes of code point " << cp << " are " << show(c.str()));
    REQ(c.Length() == e.size() && c.size() == e.size(), "length of code point " << cp);
    REQ(c.GetCodePoint() == cp, "code point " << cp << " read back as " << c.GetCodePoint());
    REQ(c.IsEmpty() == e.empty() && c.NotEmpty() != e.empty(), "emptiness of " << cp);
    std::ostringstream o; o << c; REQ(o.str() == e, "streamed code point " << cp);
    REQ(std::string(c.c_str()) == e && std::string(c.data()) == e, "c_str of " << cp);
}
template <class F> static void accept(bool ok, const std::string& b, const char* how, F f) {
    try {
        Char c = f();
        REQ(ok, how << " accepted " << show(b));
        REQ(c.str() == b, how << " changed " << show(b) << " to " << show(c.str()));
    } catch (const std::invalid_argument&) { REQ(!ok, how << " refused " << show(b)); }
}
void run_case(const Args& a) {
    if (a[0] == "cp") {
        uint32_t cp = uint32_t(ival(a[1]));
        check_cp(Char(Caitlyn::CodePoint(cp)), cp);
        Char c("Q"); c = Caitlyn::CodePoint(cp); check_cp(c, cp);
    } else if (a[0] == "bytes") {
        const std::string& b = a[1]; bool ok = valid(b);
        accept(ok, b, "Char(DataType)", [&] { return Char(Char::DataType(b)); });
        accept(ok, b, "operator=(DataType)", [&] { Char c("z"); try { c = Char::DataType(b); } catch (...) { REQ(c.str() == "z", "refused assignment changed the Char"); throw; } return c; });
        if (b.find('\0') == std::string::npos) {
            std::vector<char> buf(b.begin(), b.end()); buf.push_back(0);
            const char* p = buf.data();
            accept(ok, b, "Char(const char*)", [&] { return Char(p); });
            accept(ok, b, "operator=(const char*)", [&] { Char c("z"); try { c = p; } catch (...) { REQ(c.str() == "z", "refused assignment changed the Char"); throw; } return c; });
            accept(ok, b, "_char literal", [&] { return operator""_char(p, b.size()); });
        }
        if (b.size() == 1) {
            accept(ok, b, "Char(char)", [&] { return Char(b[0]); });
            accept(ok, b, "operator=(char)", [&] { Char c("z"); try { c = b[0]; } catch (...) { REQ(c.str() == "z", "refused assignment changed the Char"); throw; } return c; });
        }
    } else {
        Char x{Caitlyn::CodePoint(ival(a[1]))}, y{Caitlyn::CodePoint(ival(a[2]))};
        std::string p = x.str(), q = y.str();
        REQ((x == y) == (p == q) && (x != y) == (p != q) && (x < y) == (p < q) && (x > y) == (p > q)
            && (x <= y) == (p <= q) && (x >= y) == (p >= q), "comparison of " << show(p) << " and " << show(q));
        Char z(x); REQ(z == x, "copy"); z = y; REQ(z == y && z.str() == q, "assign");
    }
}
void search(Search& s) {
    for (uint32_t c = 0; c <= 0x10FFFF; c += (c < 0x3000 || s.thorough) ? 1 : 17) s.t({"cp", num(c)});
    for (int c = 0; c < 256; ++c) s.t({"bytes", std::string(1, char(c))});
    s.t({"bytes", ""});
    for (int c = 0; c < 65536; c += s.thorough ? 1 : 11) s.t({"bytes", std::string{char(c >> 8), char(c)}});
    const unsigned char reps[] = {0, 'a', 0x7F, 0x80, 0xBF, 0xC0, 0xC2, 0xDF, 0xE0, 0xEF, 0xF0, 0xF4, 0xF7, 0xF8, 0xFF};
    for (auto p : reps) for (auto q : reps) for (auto r : reps) {
        s.t({"bytes", std::string{char(p), char(q), char(r)}});
        for (auto t : reps) { if (!s.thorough && s.below(4)) continue; s.t({"bytes", std::string{char(p), char(q), char(r), char(t)}});
            s.t({"bytes", std::string{char(p), char(q), char(r), char(t), char(0x80)}}); }
    }
    for (int i = 0; i < 20000 || (s.thorough && !s.timeup()); ++i) {
        s.t({"cmp", num(s.below(0x110000)), num(s.coin(3) ? s.below(0x300) : s.below(0x110000))});
        s.t({"bytes", s.bytes(6, "\x80\xBF\xC3\xE2\xF0\x90" "a\xF8")});
        if (s.timeup()) break;
    }
}
