#include "strmodel.h"
#include <Caitlyn/__Core/String/Utility.h>
using Caitlyn::StringBuilder;
static std::string enc(unsigned c) {
    std::string r;
    if (c == 0) return r;
    if (c < 0x80) r += char(c);
    else if (c < 0x800) { r += char(0xC0 | c >> 6); r += char(0x80 | (c & 63)); }
    else { r += char(0xE0 | c >> 12); r += char(0x80 | ((c >> 6) & 63)); r += char(0x80 | (c & 63)); }
    return r;
}
static std::string unescape(const M& m) {
    std::string out;
    for (size_t i = 0; i < m.size(); ++i) {
        if (m[i] == "\\" && i + 1 < m.size()) {
            static const std::map<std::string, char> one{{"\"", '"'}, {"?", '?'}, {"\\", '\\'}, {"/", '/'}, {"a", 7}, {"b", 8}, {"f", 12}, {"n", 10}, {"r", 13}, {"t", 9}, {"v", 11}};
            auto it = one.find(m[i + 1]);
            if (it != one.end()) { out += it->second; ++i; continue; }
            if (m[i + 1] == "u" && i + 5 < m.size()) {
                unsigned v = 0; bool ok = true;
                for (size_t k = i + 2; k < i + 6; ++k) { if (m[k].size() == 1 && isxdigit((unsigned char)m[k][0])) v = v * 16 + unsigned(strtoul(m[k].c_str(), nullptr, 16)); else ok = false; }
                if (ok) { out += enc(v); i += 5; continue; }
            }
        }
        out += m[i];
    }
    return out;
}
static bool space(const std::string& c) {
    static const std::set<std::string> w{"\t", "\n", "\v", "\f", "\r", " ", "\xC2\x85", "\xC2\xA0", "\xE1\x9A\x80", "\xE2\x80\x80", "\xE2\x80\x81", "\xE2\x80\x82", "\xE2\x80\x83", "\xE2\x80\x84", "\xE2\x80\x85", "\xE2\x80\x86", "\xE2\x80\x87", "\xE2\x80\x88", "\xE2\x80\x89", "\xE2\x80\x8A", "\xE2\x80\xA8", "\xE2\x80\xA9", "\xE2\x80\xAF", "\xE2\x81\x9F", "\xE3\x80\x80"};
    return w.count(c) != 0;
}
void run_case(const Args& a) {
    const std::string& op = a[0];
    if (op == "split") {
        char d = a[2][0]; std::vector<std::string> want; std::string cur;
        for (char c : a[1]) { if (c == d) { want.push_back(cur); cur.clear(); } else cur += c; }
        if (!cur.empty()) want.push_back(cur);
        auto got = Caitlyn::Split(a[1], d);
        auto sh = [](const std::vector<std::string>& v) { std::string r = "["; for (auto& x : v) r += show(x); return r + "]"; };
        REQ(got == want, "Split(" << show(a[1]) << ", " << show(a[2]) << ") gives " << sh(got) << " instead of " << sh(want));
    } else if (op == "repeat") {
        size_t n = size_t(ival(a[2])); std::string w; for (size_t i = 0; i < n; ++i) w += a[1];
        std::string g = Caitlyn::Repeat(a[1], n);
        REQ(g == w, "Repeat(" << show(a[1]) << ", " << n << ") gives " << show(g) << " instead of " << show(w));
    } else if (op == "escape") {
        M m = msplit(a[1]); String S = mk(m);
        std::string w = unescape(m), g = Caitlyn::EscapeString(S).str();
        REQ(g == w, "EscapeString(" << show(a[1]) << ") gives " << show(g) << " instead of " << show(w));
        same(S, m, "the escaped string");
    } else if (op == "scan") {
        M m = msplit(a[1]); String S = mk(m);
        bool num = !m.empty(); size_t first = m.size(), last = m.size();
        for (size_t i = 0; i < m.size(); ++i) {
            if (m[i].size() == 1 ? !isdigit((unsigned char)m[i][0]) : !Caitlyn::IsDigit(S.At(i).GetCodePoint())) num = false;
            if (!space(m[i])) { if (first == m.size()) first = i; last = i; }
        }
        REQ(Caitlyn::IsNumber(S) == num, "IsNumber(" << show(a[1]) << ") is " << !num);
        REQ(Caitlyn::FindFirstNonSpace(S) == first, "FindFirstNonSpace(" << show(a[1]) << ") = " << Caitlyn::FindFirstNonSpace(S) << " instead of " << first);
        REQ(Caitlyn::FindLastNonSpace(S) == last, "FindLastNonSpace(" << show(a[1]) << ") = " << Caitlyn::FindLastNonSpace(S) << " instead of " << last);
    } else if (op == "build") {         // a script: kind letter and text, alternating
        std::string want; StringBuilder b;
        auto chk = [&](const StringBuilder& x, const std::string& w, const char* what) { REQ(x.str().str() == w, what << " holds " << show(x.str().str()) << " instead of " << show(w)); };
        for (size_t i = 1; i + 1 < a.size(); i += 2) {
            const std::string& t = a[i + 1]; String T = mk(msplit(t));
            switch (a[i][0]) {
                case 'a': b.Append(T); want += t; break;
                case 'l': b.AppendLine(T); want += t + "\n"; break;
                case 'f': b.Append("<{}>", T); want += "<" + t + ">"; break;
                case 'g': b.AppendLine("{1}{0}", T, 7); want += "7" + t + "\n"; break;
                case 'n': { b.AppendLine("", T, 7); want += "\n"; b.Append("", T); b.AppendLine(""); want += "\n"; b.AppendLine("{}\n", T); want += t + "\n\n"; b.AppendLine("x}}{{", T); want += "x}{\n"; chk(StringBuilder("", T), "", "StringBuilder(empty format)"); chk(Caitlyn::MakeText("", T), "", "MakeText(empty format)"); break; }
                case 'c': { StringBuilder d(b); chk(d, want, "the copy"); d.Append(T); chk(d, want + t, "the extended copy"); chk(b, want, "the copied builder"); break; }
                case 'm': { StringBuilder d(b); StringBuilder e(std::move(d)); e.Append(T); chk(e, want + t, "the moved builder"); break; }
                case 'e': { bool threw = false; try { b.Append("{1}", T); } catch (const std::exception&) { threw = true; } REQ(threw, "a missing argument is accepted"); break; }
            }
            chk(b, want, "the builder");
            chk(StringBuilder(T), t, "StringBuilder(String)"); chk(StringBuilder(t.c_str()), t, "StringBuilder(const char*)");
            chk(Caitlyn::MakeText(T), t, "MakeText(String)"); chk(Caitlyn::MakeText("{}!", T), t + "!", "MakeText(format)"); chk(StringBuilder("{0}{0}", T), t + t, "StringBuilder(format)");
        }
        chk(Caitlyn::MakeText(), "", "MakeText()"); chk(Caitlyn::MakeText('x'), "x", "MakeText(char)"); chk(StringBuilder('y'), "y", "StringBuilder(char)");
    } else fail("harness: unknown operation");
}
void search(Search& s) {
    std::vector<std::string> w{""};
    for (size_t i = 0; w[i].size() < (s.thorough ? 6u : 5u); ++i) for (auto c : {"a", ",", "b"}) w.push_back(w[i] + c);
    for (auto& x : w) { s.t({"split", x, ","}); if (x.size() < 4) for (auto n : {"0", "1", "2", "5"}) s.t({"repeat", x, n}); }
    s.t({"split", std::string("a\0b\0", 4), std::string("\0", 1)}); s.t({"split", "a\n\nb", "\n"}); s.t({"repeat", std::string("\0x", 2), "3"});
    for (int c = 1; c < 128; ++c) for (auto t : {"", "x", "\\"}) { s.t({"escape", std::string("\\") + char(c) + t}); s.t({"escape", std::string(t) + char(c)}); s.t({"scan", std::string(t) + char(c)}); }
    for (int k = 0; k < 6; ++k) s.t({"escape", std::string("\\u0041").substr(0, size_t(k) + 1)});
    for (unsigned v = 0; v < 0x10000; v += s.thorough ? 1 : 241) { char b[16]; snprintf(b, sizeof b, v & 1 ? "\\u%04x" : "\\u%04Xz", v); s.t({"escape", b}); }
    for (int k = 0; k < 4; ++k) for (auto bad : {"g", " ", "+", "-", "x", "\xC3\xA9", "\\", "\""}) { std::string d[4] = {"0", "0", "4", "1"}; d[k] = bad; s.t({"escape", "\\u" + d[0] + d[1] + d[2] + d[3] + "5"}); }
    const std::vector<std::string> sp{" ", "\t", "\xC2\xA0", "\xE3\x80\x80", "\xE2\x80\xA8", "a", "1", "\xC3\xA9", "\xD9\xA1", "\n", "9", "\xE2\x80\x8B", "0"};
    for (auto& x : sp) for (auto& y : sp) for (auto& z : sp) s.t({"scan", x + y + z});
    s.t({"scan", ""});
    for (long long v : dict_ints) for (int d = -1; d < 2; ++d) if (v + d >= 0 && v + d < 3000000) { s.t({"repeat", "x", num(v + d)}); if (v < 100000) s.t({"repeat", "xyz", num(v + d)}); }
    s.t({"repeat", "x", "70000"});
    while (!s.timeup()) {
        if (!s.thorough && orc::count > 40000) break;
        std::string x; for (size_t n = s.below(9); n; --n) x += s.pick(sp);
        s.t({"scan", x});
        x.clear(); for (size_t n = s.below(7); n; --n) x += s.coin() ? std::string("\\") + s.pick(std::vector<std::string>{"u", "n", "u00e9", "u20aC", "\\", "/", "q", "x", "'", "u12", "\xC3\xA9", "uD83D"}) : rnd_text(s, s.below(3));
        s.t({"escape", x});
        s.t({"split", s.bytes(12, std::string("ab,,;\0\n", 7)), s.coin() ? "," : std::string(1, char(s.below(256)))});
        s.t({"repeat", s.bytes(4, "ab\xC3"), std::to_string(s.below(40))});
        if (s.coin(4)) { Args a{"build"}; for (size_t n = s.below(5); n; --n) { a.push_back(std::string(1, "alfgcmen"[s.below(8)])); a.push_back(rnd_text(s, s.below(6))); } s.t(a); }
    }
}
