#include "strmodel.h"
static void made(bool ok, const M& m, const std::string& b, const char* how, const std::function<String()>& f) {
    try {
        String s = f();
        REQ(ok, how << " accepted " << show(b));
        same(s, m, how);
        size_t bytes = 0; for (auto& c : m) bytes += c.size();
        REQ(s.ByteCount() == bytes, how << " of " << show(b) << ": ByteCount " << s.ByteCount() << " instead of " << bytes);
        REQ(s.str() == b, how << " of " << show(b) << " prints " << show(s.str()));
        std::ostringstream o; o << s; REQ(o.str() == b, "streaming " << show(b) << " gives " << show(o.str()));
        Caitlyn::String::DataType d = s.data(); REQ(d.size() == m.size(), "data()");
        for (size_t i = 0; i < m.size(); ++i) REQ(d[i].str() == m[i], "data()[" << i << "]");
    } catch (const std::exception& e) { REQ(!ok, how << " refused " << show(b) << ": " << e.what()); }
}
void run_case(const Args& a) {
    std::string b = a[0].substr(0, a[0].find('\0'));     // C text ends at the first NUL
    M m; bool ok = split(b, m);
    { Text t(b); const char* p = t; made(ok, m, b, "String(const char*)", [&] { return String(p); });
      made(ok, m, b, "_str literal", [&] { return operator""_str(p, b.size()); });
      made(ok, m, b, "assignment from C text", [&] { String s("xyz"); s = p; return s; });
      made(ok, m, b, "Append(const char*)", [&] { String s; s.Append(p); return s; }); }
    { std::string e(b); e.shrink_to_fit(); made(ok, m, b, "String(BasicString)", [&] { return String(e); }); }
    if (ok && a[0] == b) { std::vector<Char> v; for (auto& c : m) v.emplace_back(Char::DataType(c)); made(true, m, b, "String(vector)", [&] { return String(v); });
        if (v.size()) made(true, m, b, "String(first, last)", [&] { return String(v.begin(), v.end()); }); }
    std::string e(a[0]); made(ok, m, b, "String(BasicString) with NULs", [&] { return String(e); });
}
void search(Search& s) {
    s.t({""});
    const unsigned char reps[] = {1, 'a', 0x7F, 0x80, 0x8F, 0xBF, 0xC0, 0xC2, 0xDF, 0xE0, 0xED, 0xEF, 0xF0, 0xF4, 0xF7, 0xF8, 0xFC, 0xFF};
    for (int p = 1; p < 256; ++p) { s.t({std::string(1, char(p))}); for (int q : reps) s.t({std::string{char(p), char(q)}}); }
    for (auto p : reps) for (auto q : reps) for (auto r : reps) { s.t({std::string{char(p), char(q), char(r)}});
        if (p >= 0xE0) for (auto t : reps) s.t({std::string{char(p), char(q), char(r), char(t)}}); }
    for (unsigned c = 1; c < 0x110000; c += s.thorough ? 7 : 997) s.t({Char(Caitlyn::CodePoint(c)).str()});
    for (size_t n : {15u, 16u, 17u, 63u, 64u, 255u, 256u, 257u, 1000u, 4096u}) { s.t({std::string(n, 'a')}); s.t({rnd_text(s, n, 1)}); }
    for (int i = 0; i < 20000 || (s.thorough && !s.timeup()); ++i) {
        if (s.timeup()) break;
        std::string t = rnd_text(s, s.below(s.coin(20) ? 200 : 9));
        s.t({t});
        if (t.size()) { std::string u = t.substr(0, s.below(t.size())); s.t({u});   // cut inside a character
            u = t; u[s.below(u.size())] = char(s.below(256)); s.t({u}); u.insert(s.below(u.size()), 1, char(s.below(256))); s.t({u}); }
    }
}
