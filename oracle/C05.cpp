#include "strmodel.h"
static size_t U(const std::string& s) { return strtoull(s.c_str(), nullptr, 10); }
static M cat(const M& a, const M& b) { M r(a); r.insert(r.end(), b.begin(), b.end()); return r; }
static M sub(const M& a, size_t i, size_t j) { return M(a.begin() + long(i), a.begin() + long(j)); }
template <class E, class F> static bool throws(F f, const char* w) { try { f(); return false; } catch (const E&) { return true; } catch (const std::exception& e) { fail(std::string(w) + " threw something else: " + e.what()); } }
// a case is a history: the initial text followed by operations "op", arg, arg
void run_case(const Args& a) {
    M m = msplit(a[0]); String s = mk(m);
    for (size_t i = 1; i + 2 < a.size() + 0; i += 3) {
        const std::string& op = a[i], &x = a[i + 1], &y = a[i + 2];
        if (op == "+=") { M t = msplit(x); String T = mk(t); String& r = (s += T); m = cat(m, t); REQ(&r == &s, "+= returns the string"); same(T, t, "the argument of +="); }
        else if (op == "+=self") { s += s; m = cat(m, m); }
        else if (op == "+") { M t = msplit(x); String T = mk(t); String r = s + T; same(s, m, "left operand of +"); same(T, t, "right operand of +"); m = cat(m, t); same(r, m, "operator+"); s = r; }
        else if (op == "+self") { s = s + s; m = cat(m, m); }
        else if (op == "pb") { M t = msplit(x); s.PushBack(Char(Char::DataType(t[0]))); m.push_back(t[0]); }
        else if (op == "pbself") { if (m.size()) { size_t k = U(x) % m.size(); s.PushBack(s[k]); m.push_back(std::string(m[k])); } }
        else if (op == "apc") { M t; bool ok = split(x, t); Text c(x); bool th = throws<std::exception>([&] { s.Append((const char*)c); }, "Append"); REQ(th == !ok, "Append(C text) of " << show(x)); if (!ok) { m = model(s); } else m = cat(m, t); }
        else if (op == "apn") { M t = msplit(x); size_t n = U(y); s.Append(n, Char(Char::DataType(t[0]))); for (size_t k = 0; k < n; ++k) m.push_back(t[0]); }
        else if (op == "apnc") { M t = msplit(x); size_t n = U(y); Text c(t[0]); s.Append(n, (const char*)c); for (size_t k = 0; k < n; ++k) m.push_back(t[0]); }
        else if (op == "apnself") { if (m.size()) { size_t k = U(x) % m.size(), n = U(y); std::string v = m[k]; s.Append(n, s[k]); for (size_t q = 0; q < n; ++q) m.push_back(v); } }
        else if (op == "ins") { size_t p = U(x); M t = msplit(y); String T = mk(t); bool th = throws<std::out_of_range>([&] { s.Insert(p, T); }, "Insert"); REQ(th == (p > m.size()), "Insert at " << p << " of " << m.size()); if (!th) m = cat(cat(sub(m, 0, p), t), sub(m, p, m.size())); same(T, t, "the argument of Insert"); }
        else if (op == "insself") { size_t p = U(x); bool th = throws<std::out_of_range>([&] { s.Insert(p, s); }, "Insert"); REQ(th == (p > m.size()), "Insert at " << p << " of " << m.size()); if (!th) m = cat(cat(sub(m, 0, p), m), sub(m, p, m.size())); }
        else if (op == "insc") { size_t p = U(x); M t; bool ok = split(y, t); Text c(y); bool th = throws<std::exception>([&] { s.Insert(p, (const char*)c); }, "Insert"); REQ(th == (p > m.size() || !ok), "Insert(C text) at " << p << " of " << m.size()); if (!th) m = cat(cat(sub(m, 0, p), t), sub(m, p, m.size())); }
        else if (op == "insn") { size_t p = U(x); M t = msplit(y); size_t n = t.size(); Char c(Char::DataType(t.empty() ? "q" : t[0])); bool th = throws<std::out_of_range>([&] { s.Insert(p, n, c); }, "Insert"); REQ(th == (p > m.size()), "Insert at " << p); if (!th) m = cat(cat(sub(m, 0, p), M(n, c.str())), sub(m, p, m.size())); }
        else if (op == "insnself") { if (m.size()) { size_t p = U(x) % (m.size() + 1), k = U(y) % m.size(); std::string v = m[k]; s.Insert(p, 2, s[k]); m.insert(m.begin() + long(p), 2, v); } }
        else if (op == "clear") { s.Clear(); m.clear(); }
        else if (op == "copy") { String t(s); same(t, m, "a copy"); t.PushBack(Char("#")); same(s, m, "the copied string"); String u; u = s; same(u, m, "an assigned copy"); u += u; same(s, m, "the assigned string"); const String& al = s; s = al; }
        else if (op == "move") { String t(std::move(s)); same(t, m, "a moved string"); s = String(); s = std::move(t); }
        else if (op == "fill") { size_t n = U(y); String t(n, 'k'); same(t, M(n, "k"), "String(count, char)"); M c = msplit(x); String u(n, Char(Char::DataType(c[0]))); same(u, M(n, c[0]), "String(count, Char)"); }
        else if (op == "set") { if (m.size()) { size_t k = U(x) % m.size(); s[k] = Char("Z"); m[k] = "Z"; k = U(y) % m.size(); s.At(k) = Char("Y"); m[k] = "Y"; } }
        else if (op == "at") { size_t k = U(x); const String& cs = s; bool t1 = throws<std::out_of_range>([&] { cs.At(k); }, "At"), t2 = throws<std::out_of_range>([&] { s.At(k); }, "At");
            REQ(t1 == (k >= m.size()) && t2 == t1, "At(" << k << ") of " << m.size()); if (!t1) REQ(cs.At(k).str() == m[k] && cs[k].str() == m[k] && s[k].str() == m[k], "character " << k); }
        else if (op == "sub") { size_t p = U(x), n = U(y); String r; bool th = throws<std::out_of_range>([&] { r = s.Substring(p, n); }, "Substring"); REQ(th == (p > m.size()), "Substring at " << p << " of " << m.size());
            if (!th) same(r, sub(m, p, n < m.size() - p ? p + n : m.size()), "Substring"); }
        else if (op == "cmp") {
            M t = msplit(x); String T = mk(t); bool lt = m < t, gt = t < m, eq = m == t;
            REQ((s == T) == eq && (s != T) == !eq && (s < T) == lt && (s > T) == gt && (s <= T) == !gt && (s >= T) == !lt, "comparison of " << showm(m) << " with " << showm(t));
            Text c(x); const char* p = c; int d = join(m).compare(x);
            REQ((s == p) == (d == 0) && (s != p) == (d != 0) && (s < p) == (d < 0) && (s > p) == (d > 0) && (s <= p) == (d <= 0) && (s >= p) == (d >= 0), "comparison of " << showm(m) << " with C text " << show(x));
        }
        else fail("harness: unknown operation " + op);
        same(s, m, op.c_str());
        REQ(String::Empty().size() == 0, "Empty()");
        size_t k = 0; for (auto& c : s) REQ(k < m.size() && c.str() == m[k++], "iteration"); REQ(k == m.size(), "iteration length");
        for (auto it = s.rbegin(); it != s.rend(); ++it) REQ(k && it->str() == m[--k], "reverse iteration");
        const String& cs = s; k = 0;
        for (auto it = cs.cbegin(); it != cs.cend(); ++it) REQ(k < m.size() && it->str() == m[k++], "cbegin to cend"); REQ(k == m.size(), "cend");
        for (auto it = cs.crbegin(); it != cs.crend(); ++it) REQ(k && it->str() == m[--k], "crbegin to crend"); REQ(k == 0, "crend");
        if (m.size() > 5000) break;
    }
}
void search(Search& s) {
    static const std::vector<std::string> ops{"+=", "+=self", "+", "+self", "pb", "pbself", "apc", "apn", "apnc", "apnself", "ins", "insself", "insc", "insn", "insnself", "clear", "copy", "move", "fill", "set", "at", "sub", "cmp"};
    auto n = [](size_t v) { return std::to_string(v); };
    auto arg = [&](const std::string& op, size_t len, std::string& x, std::string& y) {
        x = "0"; y = "0";
        size_t pos = s.coin(5) ? size_t(-1) - s.below(3) : s.coin(8) ? s.rng() : s.below(len + 3);
        if (op == "+=" || op == "+") x = rnd_text(s, s.below(s.coin(8) ? 40 : 6));
        else if (op == "cmp") { x = rnd_text(s, s.below(6), s.coin() ? 0 : 1); }
        else if (op == "pb" || op == "apn" || op == "apnc" || op == "fill") { x = rnd_text(s, 1, 1); y = n(s.below(s.coin(6) ? 40 : 4)); }
        else if (op == "apc") { x = rnd_text(s, s.below(5)); if (s.coin(6)) x += char(128 + s.below(128)); }
        else if (op == "ins" || op == "insn") { x = n(pos); y = rnd_text(s, s.below(5)); }
        else if (op == "insc") { x = n(pos); y = rnd_text(s, s.below(5)); if (s.coin(6)) y += char(128 + s.below(128)); }
        else if (op == "insself" || op == "at") x = n(pos);
        else if (op == "sub") { x = n(pos); y = n(s.coin(4) ? size_t(-1) - s.below(2) : s.below(len + 3)); }
        else { x = n(s.below(100)); y = n(s.below(30)); }
    };
    std::vector<std::string> base{"", "a", "ab", "ba", "b", "\xC3\xA9" "b", "abc", "aab", "abab", "\xE2\x82\xAC\xF0\x9F\x98\x80x"};
    for (auto& b : base) for (auto& op : ops) for (int k = 0; k < (s.thorough ? 200 : 25); ++k) { std::string x, y; arg(op, msplit(b).size(), x, y); s.t({b, op, x, y}); }
    for (auto& b : base) for (auto& c : base) { s.t({b, "cmp", c, "0"}); s.t({b + c, "cmp", b, "0"}); s.t({b, "cmp", b + c, "0"}); }
    for (auto& b : base) for (size_t p = 0; p < 6; ++p) for (size_t q = 0; q < 6; ++q) { s.t({b, "sub", n(p), n(q)}); s.t({b, "insnself", n(p), n(q)}); s.t({b, "apnself", n(p), n(q)}); s.t({b, "insself", n(p), "0", "insself", n(q), "0"}); }
    for (int i = 0; i < 8000 || (s.thorough && !s.timeup()); ++i) {
        if (s.timeup()) break;
        Args a{rnd_text(s, s.below(s.coin(8) ? 40 : 6))};
        size_t k = 1 + s.below(8), len = msplit(a[0]).size();
        for (size_t j = 0; j < k; ++j) { std::string x, y, op = s.pick(ops); arg(op, len, x, y); a.push_back(op); a.push_back(x); a.push_back(y); len += 2; }
        s.t(a);
    }
}
