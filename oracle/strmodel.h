#pragma once
// a String is a sequence of characters; each character is the byte string that encodes it
#include <Caitlyn/__Core/String.h>
#include "oracle.h"
using Caitlyn::Char; using Caitlyn::String;
typedef std::vector<std::string> M;
inline size_t lead(unsigned char b) { return b < 0x80 ? 1 : b < 0xC0 ? 0 : b < 0xE0 ? 2 : b < 0xF0 ? 3 : b < 0xF8 ? 4 : 0; }
// split well-formed text; false when malformed
inline bool split(const std::string& s, M& out) {
    size_t i = 0;
    while (i < s.size()) {
        size_t n = lead((unsigned char)s[i]);
        if (!n || i + n > s.size()) return false;
        for (size_t k = 1; k < n; ++k) if (((unsigned char)s[i + k] & 0xC0) != 0x80) return false;
        out.push_back(s.substr(i, n)); i += n;
    }
    return true;
}
inline std::string join(const M& m) { std::string s; for (auto& c : m) s += c; return s; }
inline M model(const String& s) { M m; for (size_t i = 0; i < s.size(); ++i) m.push_back(s.At(i).str()); return m; }
inline std::string showm(const M& m) { std::string r = "["; for (auto& c : m) r += show(c); return r + "]"; }
// exact-size heap copy: an over-read is a sanitizer error
struct Text { std::vector<char> b; explicit Text(const std::string& s) : b(s.begin(), s.end()) { b.push_back(0); b.shrink_to_fit(); } operator const char*() const { return b.data(); } };
inline String mk(const M& m) { String s; for (auto& c : m) s.PushBack(Char(Char::DataType(c))); return s; }
inline M msplit(const std::string& s) { M m; if (!split(s, m)) fail("harness: bad model text " + show(s)); return m; }
inline void same(const String& s, const M& m, const char* what) {
    M g = model(s);
    REQ(g == m && s.Length() == m.size() && s.size() == m.size() && s.IsEmpty() == m.empty() && s.NotEmpty() == !m.empty(),
        what << " gives " << showm(g) << " (length " << s.Length() << ") instead of " << showm(m));
    REQ(s.str() == join(m) || join(m).find('\0') != std::string::npos, what << ": str() gives " << show(s.str()));
}
inline std::string rnd_text(Search& s, size_t n, int kind = -1) {
    static const std::vector<std::string> A{"a", "b", "a", "b", "\xC3\xA9", "\xE2\x82\xAC", "\xF0\x9F\x98\x80", "c", " ", "\x7F", "\xDF\xBF", "A"};
    static const std::vector<std::string> B{"a", "b"};
    std::string r; if (kind < 0) kind = int(s.below(3));
    for (size_t i = 0; i < n; ++i) r += kind == 0 ? s.pick(B) : kind == 1 ? s.pick(A) : (s.coin(30) ? s.dict_str() : s.pick(A));
    M m; if (r.find('\0') != std::string::npos || !split(r, m)) return "ab";
    return r;
}
