#define ORACLE_STACK (64 << 20)
#include <cstdint>
#include "Caitlyn/__Core/String.h"
#include "Caitlyn/__Serializing/Json.h"
#include "strmodel.h"
#include <limits>
#include <sstream>
using namespace Caitlyn;
using Json::__Detail::JsonData; using Json::JsonClass;
// a case: <way> <several lines?> <indent> and a value: n | t | f | i<number> | F<number> | s<text> | a<count> elements | o<count> (k<name> value)*
struct V { char t = 'n'; std::string s; long long i = 0; float f = 0; std::vector<std::pair<std::string, V>> o; std::vector<V> a; };
struct Bad {};
static V read(const Args& a, size_t& p, int depth = 0) {
    if (p >= a.size() || a[p].empty() || depth > 200) throw Bad();
    std::string k = a[p++]; V v; v.t = k[0]; k.erase(0, 1); M m;
    switch (v.t) {
        case 'n': case 't': case 'f': break;
        case 'i': v.i = ival(k); break;
        case 'F': v.f = std::strtof(k.c_str(), nullptr); break;
        case 's': if (k.find('\0') != std::string::npos || !split(k, m)) throw Bad(); v.s = k; break;
        case 'a': { size_t n = size_t(ival(k)); if (n > 500) throw Bad(); while (n--) v.a.push_back(read(a, p, depth + 1)); break; }
        case 'o': {
            size_t n = size_t(ival(k)); if (n > 500) throw Bad();
            while (n--) { if (p >= a.size() || a[p].empty() || a[p][0] != 'k') throw Bad(); std::string key = a[p++].substr(1); if (!split(key, m)) throw Bad(); for (auto& x : v.o) if (x.first == key) throw Bad(); v.o.push_back({key, read(a, p, depth + 1)}); }
            break;
        }
        default: throw Bad();
    }
    return v;
}
static JsonData make(const V& v) {
    JsonData d;
    switch (v.t) {
        case 't': d = true; break; case 'f': d = false; break; case 'i': d = JsonData(std::int64_t(v.i)); break; case 'F': d = v.f; break; case 's': d = v.s; break;
        case 'a': d = Json::MakeArray(); for (auto& x : v.a) d.Append(make(x)); break;
        case 'o': d = Json::MakeObject(); for (auto& x : v.o) d[mk(msplit(x.first))] = make(x.second); break;
    }
    return d;
}
static std::string quote(const std::string& s) {
    std::string r = "\"";
    for (char c : s) { char b[8]; if ((unsigned char)c < 32) { snprintf(b, sizeof b, "\\u%04x", c); r += b; } else { if (c == '"' || c == '\\') r += '\\'; r += c; } }
    return r + '"';
}
static std::string text(const V& v, bool m, size_t base, size_t in) {
    std::string nl = m ? "\n" : "", pad = m ? std::string(in, ' ') : "", end = m ? std::string(in - base, ' ') : "", r;
    switch (v.t) {
        case 't': return "true"; case 'f': return "false"; case 'i': return num(v.i); case 's': return quote(v.s);
        case 'F': { std::ostringstream o; o << v.f; return o.str(); }
        case 'a': r = "["; if (v.a.size()) r += nl; for (size_t i = 0; i < v.a.size(); ++i) r += (i ? "," + nl : "") + pad + text(v.a[i], m, base, in + base); return r + (v.a.size() ? nl : "") + end + "]";
        case 'o': r = "{"; if (v.o.size()) r += nl; for (size_t i = 0; i < v.o.size(); ++i) r += (i ? "," + nl : "") + pad + quote(v.o[i].first) + (m ? ": " : ":") + text(v.o[i].second, m, base, in + base); return r + (v.o.size() ? nl : "") + end + "}";
    }
    return "null";
}
static bool plain(const V& v) {
    if (v.t == 'F' || v.s.find('\0') != std::string::npos) return false;
    for (auto& x : v.a) if (!plain(x)) return false;
    for (auto& x : v.o) if (x.first.find('\0') != std::string::npos || !plain(x.second)) return false;
    return true;
}
static void eq(const JsonData& j, const V& v, const std::string& at) {
    JsonClass c = v.t == 'n' ? JsonClass::Null : v.t == 'o' ? JsonClass::Object : v.t == 'a' ? JsonClass::Array : v.t == 's' ? JsonClass::String : v.t == 'F' ? JsonClass::Floating : v.t == 'i' ? JsonClass::Integral : JsonClass::Boolean;
    REQ(j.GetType() == c, "read again, the value at " << at << " has type " << int(j.GetType()) << " instead of " << int(c));
    if (v.t == 's') REQ(j.GetString() == mk(msplit(v.s)), "read again, the string at " << at << " is " << show(j.GetString().str()) << " instead of " << show(v.s));
    if (v.t == 'i') REQ(j.GetIntegral() == v.i, "read again, the number at " << at << " is " << j.GetIntegral() << " instead of " << v.i);
    if (v.t == 't' || v.t == 'f') REQ(j.GetBoolean() == (v.t == 't'), "read again, the boolean at " << at << " is wrong");
    if (v.t == 'a') { REQ(j.Size() == v.a.size(), "read again, the array at " << at << " has " << j.Size() << " elements instead of " << v.a.size()); for (size_t i = 0; i < v.a.size(); ++i) eq(j.At(i), v.a[i], at + "[" + num(i) + "]"); }
    if (v.t == 'o') {
        auto& d = const_cast<JsonData&>(j).GetData(); REQ(d.size() == v.o.size(), "read again, the object at " << at << " has " << d.size() << " members instead of " << v.o.size());
        for (size_t i = 0; i < v.o.size(); ++i) { REQ(d[i].first.str() == v.o[i].first, "read again, member " << i << " of " << at << " is called " << show(d[i].first.str()) << " instead of " << show(v.o[i].first)); eq(*d[i].second, v.o[i].second, at + "." + show(v.o[i].first)); }
    }
}
void run_case(const Args& a) {
    if (a.size() < 4) return;
    int way = int(ival(a[0])); bool m = ival(a[1]) != 0; size_t in = size_t(ival(a[2])); if (in > 64) return;
    V v; size_t p = 3; try { v = read(a, p); } catch (Bad&) { return; }
    if (p != a.size()) return;
    const JsonData d = make(v); std::string got, want = text(v, m, in, in);
    if (v.t != 'o' || way == 0) got = d.ToString(m, in).str();
    else {
        JsonDocument doc; for (auto& x : v.o) doc[mk(msplit(x.first))] = make(x.second);
        if (way == 1) got = doc.ToString(m, in).str();
        else if (way == 2) { std::ostringstream o; o << "<" << doc << ">" << doc; want = text(v, false, 2, 2); want = "<" + want + ">" + want; got = o.str(); }
        else if (way == 3) { want = text(v, m, 2, 2); got = doc.ToString(m).str(); }
        else { want = text(v, false, 2, 2); got = doc.ToString().str() ; REQ(d.ToString().str() == got, "the text of the document and of its root differ"); }
        if (v.o.empty() && doc.GetType() != JsonClass::Object) return;
    }
    REQ(got == want, "the text is " << show(got) << " instead of " << show(want));
    if (way == 2 || !plain(v)) return;
    JsonDocument back(String("{\"x\":" + got + "}")); REQ(!back.HasError(), "the text " << show(got) << " is refused when it is read again"); eq(back["x"], v, "");
    if (v.t == 'o') { JsonDocument b2{String(got)}; REQ(!b2.HasError() && b2.Size() == v.o.size(), "the text " << show(got) << " of a document is refused when it is read again"); for (auto& x : v.o) eq(b2[mk(msplit(x.first))], x.second, "." + show(x.first)); }
}
static std::string rstr(Search& s) {
    static const std::vector<std::string> E{"\"", "\\", "\n", "\t", "\r", "\b", "\f", "\x01", "\x0F", "\x10", "\x1F", "\x7F", "/", "\\n", "\\u0041", "\\\\", "\xC3\xA9", "\xF0\x9F\x98\x80", "\xE2\x80\xA8", ":", ",", "{", "}", "[", "]", " "};
    std::string r; size_t n = s.below(5);
    for (size_t i = 0; i < n; ++i) r += s.coin() ? s.pick(E) : s.coin(20) ? s.dict_str() : rnd_text(s, s.below(4), 1);
    M m; if (!split(r, m)) return "x"; if (s.coin(60)) r += std::string(1, '\0'); return r;
}
static void rval(Search& s, Args& a, int d) {
    switch (s.below(d > 0 ? 9 : 6)) {
        case 0: a.push_back("n"); break; case 1: a.push_back(s.coin() ? "t" : "f"); break; case 2: case 3: a.push_back("s" + rstr(s)); break;
        case 4: a.push_back(s.coin(4) ? "F" + std::string(s.pick(std::vector<std::string>{"1.5", "-0.25", "1e30", "3", "0", "-7.5e-9", "123456789"})) : "i0"); break;
        case 5: a.push_back("i" + num(s.coin(4) ? s.pick(std::vector<long long>{std::numeric_limits<long long>::min(), std::numeric_limits<long long>::max(), -1, 0, 10, -10, 99, 100}) : s.coin() ? s.dict_int() : (long long)s.below(2000) - 1000)); break;
        case 6: { size_t n = s.below(4); a.push_back("a" + num((long long)n)); while (n--) rval(s, a, d - 1); break; }
        default: { size_t n = s.below(4); a.push_back("o" + num((long long)n)); for (size_t i = 0; i < n; ++i) { a.push_back("k" + (s.coin(3) ? std::string(1, char('a' + i)) : rstr(s) + std::string(i, '~'))); rval(s, a, d - 1); } break; }
    }
}
void search(Search& s) {
    for (int way = 0; way < 5; ++way) for (const char* m : {"0", "1"}) for (const char* in : {"0", "1", "2", "4"})
        for (const Args& v : std::vector<Args>{{"o0"}, {"a0"}, {"o1", "ka", "o0"}, {"o1", "ka", "a0"}, {"o2", "ka", "i1", "kb", "n"}, {"a2", "t", "f"}, {"o1", "k\"\\\n", "s\"\\\n\x01\x1F"}, {"s\x7F"}, {"n"}, {"a3", "a1", "o1", "k", "s", "a0", "i-9223372036854775808"}, {"o1", "ka", "F1.5"}}) {
            Args a{num((long long)way), m, in}; a.insert(a.end(), v.begin(), v.end()); s.t(a);
        }
    while (!s.timeup()) { Args a{num((long long)s.below(5)), s.coin() ? "1" : "0", num((long long)s.below(6))}; if (s.coin(3)) rval(s, a, 4); else { size_t n = s.below(4); a.push_back("o" + num((long long)n)); for (size_t i = 0; i < n; ++i) { a.push_back("k" + rstr(s) + std::string(i, '~')); rval(s, a, 4); } } s.t(a); }
}
