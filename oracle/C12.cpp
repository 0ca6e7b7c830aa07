#define ORACLE_STACK (64 << 20)
#include <cstdint>
#include "Caitlyn/__Core/String.h"
#include "Caitlyn/__Serializing/Json.h"
#include "strmodel.h"
#include "unicode_tables.h"
#include <cerrno>
#include <fstream>
using namespace Caitlyn;
using Json::__Detail::JsonData; using Json::JsonClass;
// a case: <text> <way of parsing>. The reference is a parser of its own over the list of characters.
struct V { char t = 'n'; std::string s; long long i = 0; float f = 0; std::vector<std::pair<std::string, V>> o; std::vector<V> a; };
struct Bad {};
struct Ref {
    M m; size_t p = 0;
    explicit Ref(const std::string& s) : m(msplit(s)) {}
    static unsigned cp(const std::string& c) {
        unsigned b = (unsigned char)c[0]; if (b < 0x80) return b;
        unsigned v = b & (0xFF >> (c.size() + 1)); for (size_t i = 1; i < c.size(); ++i) v = v << 6 | ((unsigned char)c[i] & 0x3F); return v;
    }
    bool space(size_t i) const { unsigned c = cp(m[i]); for (auto& r : t_space) if (r[0] <= c && c <= r[1]) return true; return false; }
    void ws() { while (p < m.size() && space(p)) ++p; }
    bool at(const char* c) const { return p < m.size() && m[p] == c; }
    void want(const char* c) { if (!at(c)) throw Bad(); ++p; }
    static std::string enc(unsigned c) {
        std::string r;
        if (c < 0x80) r += char(c);
        else if (c < 0x800) { r += char(0xC0 | c >> 6); r += char(0x80 | (c & 63)); }
        else if (c < 0x10000) { r += char(0xE0 | c >> 12); r += char(0x80 | (c >> 6 & 63)); r += char(0x80 | (c & 63)); }
        else { r += char(0xF0 | c >> 18); r += char(0x80 | (c >> 12 & 63)); r += char(0x80 | (c >> 6 & 63)); r += char(0x80 | (c & 63)); }
        return r;
    }
    unsigned hex4() {
        unsigned v = 0;
        for (int k = 0; k < 4; ++k, ++p) { if (p >= m.size() || m[p].size() != 1 || !isxdigit((unsigned char)m[p][0])) throw Bad(); char c = m[p][0]; v = v * 16 + unsigned(c <= '9' ? c - '0' : (c | 32) - 'a' + 10); }
        return v;
    }
    std::string str() {
        want("\""); std::string r;
        for (;;) {
            if (p >= m.size()) throw Bad();
            if (at("\"")) { ++p; return r; }
            if (!at("\\")) { r += m[p++]; continue; }
            ++p; if (p >= m.size() || m[p].size() != 1) throw Bad();
            char c = m[p++][0];
            static const char from[] = "\"\\/bfnrt", to[] = "\"\\/\b\f\n\r\t";
            if (c == 'u') {
                unsigned u = hex4();
                if (u >= 0xD800 && u <= 0xDBFF) { want("\\"); want("u"); unsigned l = hex4(); if (l < 0xDC00 || l > 0xDFFF) throw Bad(); u = 0x10000 + (u - 0xD800) * 1024 + (l - 0xDC00); }
                else if (u >= 0xDC00 && u <= 0xDFFF) throw Bad();
                if (!u) throw Bad();
                r += enc(u);
            } else { const char* q = c ? strchr(from, c) : nullptr; if (!q) throw Bad(); r += to[q - from]; }
        }
    }
    bool word(const char* w) { size_t n = strlen(w); for (size_t i = 0; i < n; ++i) if (p + i >= m.size() || m[p + i] != std::string(1, w[i])) return false; p += n; return true; }
    V num() {
        std::string s; while (p < m.size() && m[p].size() == 1 && strchr("0123456789.eE+-", m[p][0])) s += m[p++];
        size_t i = 0; auto digits = [&] { size_t k = i; while (i < s.size() && isdigit((unsigned char)s[i])) ++i; if (i == k) throw Bad(); };
        if (s[i] == '-' || s[i] == '+') ++i;
        digits(); bool real = false;
        if (i < s.size() && s[i] == '.') { real = true; ++i; digits(); }
        if (i < s.size() && (s[i] | 32) == 'e') { real = true; ++i; if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i; digits(); }
        if (i != s.size()) throw Bad();
        if (p < m.size() && m[p].size() > 1) { unsigned c = cp(m[p]); for (auto& r : t_digit) if (r[0] <= c && c <= r[1]) throw Bad(); }
        V v; errno = 0;
        if (real) { double d = strtod(s.c_str(), nullptr); if (errno == ERANGE) throw Bad(); v.t = 'f'; v.f = float(d); }
        else { v.t = 'i'; v.i = strtoll(s.c_str(), nullptr, 10); if (errno == ERANGE) throw Bad(); }
        return v;
    }
    V val() {
        ws(); V v; if (p >= m.size()) throw Bad();
        if (at("\"")) { v.t = 's'; v.s = str(); return v; }
        if (at("{")) {
            ++p; v.t = 'o'; ws(); if (at("}")) { ++p; return v; }
            for (;;) {
                ws(); std::string k = str(); ws(); want(":"); V x = val(); size_t i = 0;
                while (i < v.o.size() && v.o[i].first != k) ++i;
                if (i < v.o.size()) v.o[i].second = x; else v.o.push_back({k, x});
                ws(); if (at(",")) { ++p; continue; } want("}"); return v;
            }
        }
        if (at("[")) {
            ++p; v.t = 'a'; ws(); if (at("]")) { ++p; return v; }
            for (;;) { v.a.push_back(val()); ws(); if (at(",")) { ++p; continue; } want("]"); return v; }
        }
        if (word("true")) { v.t = 'b'; v.i = 1; return v; }
        if (word("false")) { v.t = 'b'; return v; }
        if (word("null")) return v;
        if (m[p].size() == 1 && strchr("0123456789+-", m[p][0])) return num();
        throw Bad();
    }
    V doc() { ws(); if (!at("{")) throw Bad(); V v = val(); ws(); if (p < m.size()) throw Bad(); return v; }
};
static void eq(const JsonData& j, const V& v, const std::string& at) {
    static const std::string T = "nosasfib"; JsonClass c = v.t == 'n' ? JsonClass::Null : v.t == 'o' ? JsonClass::Object : v.t == 'a' ? JsonClass::Array : v.t == 's' ? JsonClass::String : v.t == 'f' ? JsonClass::Floating : v.t == 'i' ? JsonClass::Integral : JsonClass::Boolean;
    REQ(j.GetType() == c, "the value at " << at << " has type " << int(j.GetType()) << " instead of " << int(c));
    if (v.t == 's') { String g = j.GetString(); same(g, msplit(v.s), ("the string at " + at).c_str()); }
    if (v.t == 'i') REQ(j.GetIntegral() == v.i, "the number at " << at << " is " << j.GetIntegral() << " instead of " << v.i);
    if (v.t == 'f') REQ(j.GetFloating() == v.f, "the number at " << at << " is " << j.GetFloating() << " instead of " << v.f);
    if (v.t == 'b') REQ(j.GetBoolean() == (v.i != 0), "the boolean at " << at << " is wrong");
    if (v.t == 'a') { REQ(j.Size() == v.a.size(), "the array at " << at << " has " << j.Size() << " elements instead of " << v.a.size()); for (size_t i = 0; i < v.a.size(); ++i) eq(j.At(i), v.a[i], at + "[" + num(i) + "]"); }
    if (v.t == 'o') {
        auto& d = const_cast<JsonData&>(j).GetData(); REQ(d.size() == v.o.size(), "the object at " << at << " has " << d.size() << " members instead of " << v.o.size());
        for (size_t i = 0; i < v.o.size(); ++i) { REQ(d[i].first.str() == v.o[i].first, "member " << i << " of " << at << " is called " << show(d[i].first.str()) << " instead of " << show(v.o[i].first)); eq(*d[i].second, v.o[i].second, at + "." + show(v.o[i].first)); }
    }
}
static JsonDocument parse(const std::string& t, int way) {
    String s(t);
    switch (way) {
        case 1: return JsonDocument(s);
        case 2: { JsonDocument d; d["old"] = 1; d = s; return d; }
        case 3: return Json::MakeDocument(s);
        case 4: { JsonDocument d; std::istringstream is(t); is >> d; REQ(is.rdbuf()->in_avail() <= 0, "text is left in the stream"); return d; }
        case 5: case 6: case 7: case 8: {
            char n[] = "/tmp/vpjsonXXXXXX"; int fd = mkstemp(n); if (fd < 0 || write(fd, t.data(), t.size()) != ssize_t(t.size())) fail("harness: no scratch file"); close(fd);
            std::ifstream f(n, std::ios::binary); unlink(n);
            if (way == 5) { JsonDocument d(f); return d; } if (way == 6) { JsonDocument d; d = f; return d; } if (way == 7) { JsonDocument d; d.Parse(f); return d; } return Json::MakeDocument(f);
        }
        case 9: { JsonDocument d("{"); d.Parse(s); return d; }       // an old error goes away
        default: { JsonDocument d; d["old"] = 1; d.Parse(s); return d; }
    }
}
void run_case(const Args& a) {
    std::string t = a.empty() ? "" : a[0]; int way = a.size() > 1 ? int(ival(a[1])) : 0; M m;
    if (t.find('\0') != std::string::npos || !split(t, m)) return;
    Ref r(t); V v; bool ok = true; try { v = r.doc(); } catch (Bad&) { ok = false; }
    JsonDocument d = parse(t, way);
    REQ(d.HasError() == !ok, (ok ? "a document is refused" : "text that is no document is accepted"));
    REQ((d.GetError() == Json::JsonError::NoError) == ok, "GetError() and HasError() disagree");
    REQ((d.GetErrorString().str() == "No error.") == ok && d.GetErrorString().Length() > 0, "GetErrorString() is " << d.GetErrorString().str() << (ok ? " without" : " with") << " an error");
    if (!ok) REQ(d.GetType() == JsonClass::Null, "a refused text leaves a value of type " << int(d.GetType()));
    else {
        REQ(d.GetType() == JsonClass::Object, "the root is no object"); REQ(d.Size() == v.o.size(), "the root has " << d.Size() << " members instead of " << v.o.size());
        JsonData root = Json::MakeObject(); for (auto& x : v.o) { const JsonDocument& c = d; eq(c[String(x.first)], x.second, "." + show(x.first)); }
        auto p = Json::__Detail::JsonParser::Parse(String(t)); eq(p.GetData(), v, "");
    }
}
static std::string rstr(Search& s) {
    static const std::vector<std::string> E{"\\\"", "\\\\", "\\/", "\\b", "\\f", "\\n", "\\r", "\\t", "\\u0041", "\\u00e9", "\\u20AC", "\\uD83D\\uDE00", "\\udbff\\udfff", "\\uFFFF", "\\u0001", "\\u0800", "\\ud7ff\\ue000"},
        B{"\\u0000", "\\uD83D", "\\uDE00", "\\uD83Dx", "\\uD83D\\n", "\\uD83D\\u0041", "\\x", "\\", "\\u12", "\\u12g4", "\\U0041", "\\a", "\\u+123", "\\u 123", "\\0"};
    std::string r = "\""; size_t n = s.below(6);
    for (size_t i = 0; i < n; ++i) r += s.coin(3) ? s.pick(E) : s.coin(30) ? s.pick(B) : rnd_text(s, s.below(5), 1);
    return r + "\"";
}
static std::string rnum(Search& s) {
    static const std::vector<std::string> N{"0", "-0", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "1.5", "-2.25e3", "1E+2", "1e-2", "00", "+5", "007", "1.", ".5", "-", "+", "1e", "1e+", "1.5.2", "--1", "1-2", "1e400", "1e39", "1e-400", "3.", "0.1", "12345678901234567890", "1\xD9\xA0", "\xD9\xA1"};
    if (s.coin(3)) return s.pick(N);
    return num(s.coin() ? s.dict_int() : (long long)s.below(2000) - 1000) + (s.coin(4) ? "." + num((long long)s.below(1000)) : "");
}
static std::string sp(Search& s) { static const std::vector<std::string> W{"", "", "", "", " ", "\n", "\t ", "\xC2\xA0", "\xE3\x80\x80", "\r\n"}; return s.pick(W); }
static std::string rval(Search& s, int d) {
    switch (s.below(d > 0 ? 9 : 6)) {
        case 0: return "true"; case 1: return "false"; case 2: return "null"; case 3: return rnum(s); case 4: case 5: return rstr(s);
        case 6: { std::string r = "[" + sp(s); size_t n = s.below(4); for (size_t i = 0; i < n; ++i) r += (i ? "," : "") + sp(s) + rval(s, d - 1) + sp(s); return r + "]"; }
        default: { std::string r = "{" + sp(s); size_t n = s.below(4); for (size_t i = 0; i < n; ++i) r += (i ? "," : "") + sp(s) + (s.coin(3) ? std::string("\"k\"") : rstr(s)) + sp(s) + ":" + sp(s) + rval(s, d - 1) + sp(s); return r + "}"; }
    }
}
void search(Search& s) {
    for (const char* t : {"", " ", "{}", " {} ", "{ }", "[]", "1", "{\"a\":1}", "{\"a\":1,}", "{,}", "{\"a\":[1,]}", "{\"a\":[,]}", "{\"a\":[", "{\"a\":}", "{\"a\":[}", "{\"a\" 1}", "{\"a\":1 \"b\":2}", "{\"a\":1}}", "{\"a\":1}{}", "{} x", "x {}", "{\"a\":tru}", "{\"a\":nul}", "{\"a\":falsee}", "{\"a\":truee}",
                          "{\"a\":\"\\", "{\"a\":\"\\u", "{\"a\":\"\\u123\"}", "{\"a\":-}", "{\"a\":[1 2]}", "{\"a\":{\"b\":[1,{\"c\":}]}}", "{\"a\":1,\"a\":2,\"b\":3}", "{\"\":\"\"}", "{\"a", "{\"a\"", "{\"a\":", "{\"a\":1", "{\"a\":1,", "{", "}", "{\"a\":\"\\/\"}", "{\"a\\n\":\"\\n\"}", "{a:1}", "{\"a\":'x'}", "{\"a\":t}", "{\"a\":\"}", "{\"}", "{\"\xC3\xA9\":\"\xF0\x9F\x98\x80\"}", "\xC2\xA0{}\xC2\xA0"})
        for (int w = 0; w < 10; ++w) s.t({t, num(w)});
    { std::string deep; for (int i = 0; i < 60; ++i) deep += "{\"a\":["; s.t({deep, "0"}); for (int i = 0; i < 60; ++i) deep += "]}"; s.t({deep, "0"}); }
    while (!s.timeup()) {
        std::string t = s.coin(8) ? rval(s, 3) : sp(s) + "{" + sp(s);
        if (t.size() && t.back() != '}') { size_t n = s.below(4); for (size_t i = 0; i < n; ++i) t += (i ? "," : "") + sp(s) + rstr(s) + sp(s) + ":" + sp(s) + rval(s, 3) + sp(s); t += "}" + sp(s); }
        if (s.coin()) {
            int k = 1 + int(s.below(2));
            while (k-- && !t.empty()) { M m; if (!split(t, m) || m.empty()) break; size_t i = s.below(m.size()); static const std::vector<std::string> P{"{", "}", "[", "]", ",", ":", "\"", "\\", "t", "n", "f", "1", "-", ".", "e", " ", "u", "/", "+"};
                switch (s.below(5)) { case 0: m.erase(m.begin() + i); break; case 1: m.insert(m.begin() + i, s.pick(P)); break; case 2: m[i] = s.pick(P); break; case 3: m.resize(i); break; default: m.insert(m.begin() + i, m[s.below(m.size())]); }
                t = join(m); }
        }
        s.t({t, s.coin(4) ? num((long long)s.below(10)) : "0"});
    }
}
