#include <cstdint>
#include "Caitlyn/__Core/String.h"
#include "Caitlyn/__Serializing/Json.h"
#include "oracle.h"
#include <new>
using namespace Caitlyn;
using Json::__Detail::JsonData; using Json::JsonClass;
// a case is a history: "<operation> <target> <source> <literal>"; a place is a slot and the keys and indices that lead into it.
// The model is a tree of values of its own.
static long long blocks = 0;
void* operator new(std::size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); ++blocks; return p; }
void operator delete(void* p) noexcept { if (p) --blocks; free(p); }
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
struct M { JsonClass t = JsonClass::Null; std::string s; float f = 0; long i = 0; bool b = false; std::vector<std::pair<std::string, M>> o; std::vector<M> a;
    M* key(const std::string& k) { for (auto& x : o) if (x.first == k) return &x.second; return nullptr; } };
static M of(JsonClass t) { M m; m.t = t; return m; }
static const Args* ga; static size_t gn;
static std::string where() { std::string r = " after"; for (size_t i = 0; i <= gn && i < ga->size(); ++i) r += " [" + (*ga)[i] + "]"; return r; }
static std::string str(const String& s) { return s.str(); }
static bool utf8(const std::string& s) { try { String x(s); return true; } catch (...) { return false; } }
static void same(const JsonData& c, JsonData* w, const M& m) {
    REQ(c.GetType() == m.t, "the type is " << int(c.GetType()) << " instead of " << int(m.t) << where());
    REQ(c.IsNull() == (m.t == JsonClass::Null) && c.IsObject() == (m.t == JsonClass::Object) && c.IsArray() == (m.t == JsonClass::Array) && c.IsString() == (m.t == JsonClass::String) && c.IsFloating() == (m.t == JsonClass::Floating)
        && c.IsIntegral() == (m.t == JsonClass::Integral) && c.IsBoolean() == (m.t == JsonClass::Boolean), "an Is...() answer does not fit the type" << where());
    REQ(str(c.GetString()) == m.s, "the string is " << show(str(c.GetString())) << " instead of " << show(m.s) << where());
    REQ(c.GetIntegral() == m.i && c.GetFloating() == m.f && c.GetBoolean() == m.b, "a number or boolean changed" << where());
    size_t n = m.t == JsonClass::Object ? m.o.size() : m.t == JsonClass::Array ? m.a.size() : size_t(-1);
    REQ(c.Size() == n && c.Length() == n, "the size is " << (long long)c.Size() << " instead of " << (long long)n << where());
    for (const char* k : {"a", "b", "c", "d"}) { bool has = const_cast<M&>(m).key(k) != nullptr; REQ(c.HasMember(k) == has, "HasMember(" << k << ") is wrong" << where()); }
    for (auto& x : m.o) same(c.At(String(x.first)), nullptr, x.second);
    for (size_t i = 0; i < m.a.size(); ++i) same(c.At(i), nullptr, m.a[i]);
    if (w) {
        if (m.t == JsonClass::Object) { auto& d = w->GetData(); REQ(d.size() == m.o.size(), "the number of members is wrong" << where()); for (size_t i = 0; i < d.size(); ++i) REQ(str(d[i].first) == m.o[i].first, "the order of the members changed" << where()); }
        static unsigned turn = 0; if (++turn % 7) return;      // exceptions are slow
        int k = 0; try { (void)w->GetData(); } catch (const std::logic_error&) { k = 1; } REQ(k == (m.t != JsonClass::Object), "GetData() of a value that is no object" << where());
        k = 0; try { (void)c.At(String("none")); } catch (const std::out_of_range&) { k = 1; } REQ(k, "const At of a missing key did not throw out_of_range" << where());
        k = 0; try { (void)c.At(m.a.size()); } catch (const std::out_of_range&) { k = 1; } REQ(k, "const At of an index past the end did not throw out_of_range" << where());
    }
}
static const int NV = 3, ND = 2;
struct World { JsonData* v[NV]; JsonDocument* d[ND]; M mv[NV], md[ND]; Json::JsonError er[ND]; };
struct Place { JsonData* j; M* m; std::vector<int> at; };      // at: the steps actually taken, slot first
static Place go(World& w, const std::string& p) {
    Place r; int s = p.empty() ? 0 : (p[0] - '0') % (NV + ND); if (s < 0) s = 0; size_t k = 1;
    r.at.push_back(s);
    if (s < NV) { r.j = w.v[s]; r.m = &w.mv[s]; }
    else {
        std::string key = p.size() > 1 && p[1] >= 'a' && p[1] <= 'd' ? std::string(1, p[1]) : "a"; k = 2; M& root = w.md[s - NV];
        if (root.t != JsonClass::Object) root = of(JsonClass::Object);
        if (!root.key(key)) root.o.push_back({key, M()});
        r.j = &(*w.d[s - NV])[String(key)]; r.m = root.key(key); r.at.push_back(key[0]);
    }
    for (; k < p.size(); ++k) {
        char c = p[k];
        if (c >= 'a' && c <= 'd' && r.m->t == JsonClass::Object && r.m->key(std::string(1, c))) { r.j = &(*r.j)[String(std::string(1, c))]; r.m = r.m->key(std::string(1, c)); }
        else if (c >= '0' && c <= '9' && r.m->t == JsonClass::Array && size_t(c - '0') < r.m->a.size()) { r.j = &(*r.j)[size_t(c - '0')]; r.m = &r.m->a[size_t(c - '0')]; }
        else break;
        r.at.push_back(c);
    }
    return r;
}
static bool inside(const Place& in, const Place& out) { return in.at.size() > out.at.size() && std::equal(out.at.begin(), out.at.end(), in.at.begin()); }
static void step(World& w, const std::string& op) {
    std::istringstream is(op); std::string o, tp, sp, lit; is >> o >> tp >> sp; std::getline(is, lit); if (!lit.empty()) lit.erase(0, 1);
    if (o.empty()) return;
    int di = tp.empty() ? 0 : (tp[0] - '0') & 1, si = sp.empty() ? 0 : (sp[0] - '0') & 1; std::string key(1, char('a' + (lit.empty() ? 0 : lit[0] & 3)));
    if (std::string("jrefghuP").find(o[0]) != std::string::npos) {      // documents
        M& md = w.md[di]; JsonDocument& d = *w.d[di];
        switch (o[0]) {
        case 'j': { Place s = go(w, sp); M v = *s.m; JsonData c(*s.j); if (md.t != JsonClass::Object) d.AddMember(String(key), c); else d.AddMember(String(key), *s.j); if (md.t != JsonClass::Object) md = of(JsonClass::Object); if (!md.key(key)) md.o.push_back({key, M()}); *md.key(key) = v; break; }
        case 'r': d.RemoveMember(String(key)); for (size_t i = 0; i < md.o.size(); ++i) if (md.o[i].first == key) { md.o.erase(md.o.begin() + i); break; } break;
        case 'e': *w.d[di] = *w.d[si]; if (di != si) { w.md[di] = w.md[si]; w.er[di] = w.er[si]; } break;
        case 'f': *w.d[di] = std::move(*w.d[si]); if (di != si) { w.md[di] = w.md[si]; w.md[si] = M(); w.er[di] = w.er[si]; w.er[si] = Json::JsonError::NoError; } break;
        case 'g': { auto* x = new JsonDocument(*w.d[si]); delete w.d[di]; w.d[di] = x; if (di == si) break; w.md[di] = w.md[si]; w.er[di] = w.er[si]; break; }
        case 'h': { auto* x = new JsonDocument(std::move(*w.d[si])); M m = w.md[si]; Json::JsonError er = w.er[si]; w.md[si] = M(); w.er[si] = Json::JsonError::NoError; REQ(w.d[si]->GetType() == JsonClass::Null && !w.d[si]->HasError(), "a document that was moved from is not null" << where()); delete w.d[di]; w.d[di] = x; w.md[di] = m; w.er[di] = er; break; }
        case 'u': { delete w.d[di]; w.d[di] = new JsonDocument(Json::MakeDocument()); w.md[di] = of(JsonClass::Object); w.er[di] = Json::JsonError::NoError; break; }
        case 'P': { const char* t = lit.size() % 3 == 0 ? "{bad" : lit.size() % 3 == 1 ? "" : "{\"a\":1} x"; JsonDocument ref{String(t)}; d.Parse(String(t)); if (!ref.HasError()) break; md = M(); w.er[di] = ref.GetError(); break; }
        }
        return;
    }
    Place t = go(w, tp);
    M old = *t.m;
    switch (o[0]) {
    case 'k': case 'K': { JsonData& c = o[0] == 'k' ? (*t.j)[String(key)] : t.j->At(String(key)); if (t.m->t != JsonClass::Object) *t.m = of(JsonClass::Object); if (!t.m->key(key)) t.m->o.push_back({key, M()}); same(c, &c, *t.m->key(key)); c = int(lit.size()); *t.m->key(key) = of(JsonClass::Integral); t.m->key(key)->i = long(lit.size()); break; }
    case 'x': case 'X': { size_t n = (lit.empty() ? 0 : size_t(lit[0]) & 3) + (lit.size() & 1); JsonData& c = o[0] == 'x' ? (*t.j)[n] : t.j->At(n); if (t.m->t != JsonClass::Array) *t.m = of(JsonClass::Array); if (t.m->a.size() <= n) t.m->a.resize(n + 1); same(c, &c, t.m->a[n]); c = true; t.m->a[n] = of(JsonClass::Boolean); t.m->a[n].b = true; break; }
    case 'c': { Place s = go(w, sp); t = go(w, tp); M v = *s.m; JsonData& r = (*t.j = *s.j); *t.m = v; REQ(&r == t.j, "operator= does not return its object" << where()); same(*t.j, t.j, *t.m); break; }
    case 'm': { Place s = go(w, sp); t = go(w, tp); if (inside(t, s)) break; M v = *s.m; *t.j = std::move(*s.j); if (t.j != s.j) { *s.m = M(); } *t.m = v; same(*t.j, t.j, *t.m); break; }
    case 'C': { Place s = go(w, sp); JsonData y(*s.j); same(y, &y, *s.m); y[String("zz")] = 1; same(*s.j, s.j, *s.m); break; }
    case 'M': { Place s = go(w, sp); JsonData y(std::move(*s.j)); same(y, &y, *s.m); same(*s.j, s.j, M()); *s.j = std::move(y); same(y, &y, M()); break; }
    case 'b': *t.j = lit.size() % 2 == 0; *t.m = of(JsonClass::Boolean); t.m->b = lit.size() % 2 == 0; break;
    case 'B': *t.j = Json::MakeBoolean(lit.size() % 2 == 0); *t.m = of(JsonClass::Boolean); t.m->b = lit.size() % 2 == 0; break;
    case 'i': *t.j = int(ival(lit)); *t.m = of(JsonClass::Integral); t.m->i = int(ival(lit)); break;
    case 'I': *t.j = Json::MakeIntegral(ival(lit)); *t.m = of(JsonClass::Integral); t.m->i = ival(lit); break;
    case 'l': *t.j = ival(lit); *t.m = of(JsonClass::Integral); t.m->i = ival(lit); break;
    case 'd': { double v = double(int(ival(lit)) % 1000) / 8; *t.j = v; *t.m = of(JsonClass::Floating); t.m->f = float(v); break; }
    case 'D': { float v = float(int(ival(lit)) % 1000) / 8; *t.j = Json::MakeFloating(v); *t.m = of(JsonClass::Floating); t.m->f = v; break; }
    case 's': case 'p': case 'S': {
        std::string cut = lit.substr(0, lit.find('\0')); bool ok = utf8(cut); int k = 0;
        try { if (o[0] == 's') *t.j = lit; else if (o[0] == 'p') *t.j = lit.c_str(); else *t.j = Json::MakeString(lit); } catch (const std::invalid_argument&) { k = 1; } catch (const std::runtime_error&) { k = 1; }
        REQ(k == !ok, "a string value " << (ok ? "was refused" : "that is not UTF-8 was accepted") << where());
        if (!ok) { *t.j = Json::MakeNull(); *t.m = M(); } else { *t.m = of(JsonClass::String); t.m->s = cut; }
        break; }
    case 'T': { JsonClass c = JsonClass((lit.empty() ? 0 : (unsigned char)lit[0]) % 7); *t.j = Json::Make(c); *t.m = of(c); break; }
    case 'U': { M x = of(JsonClass::Integral), y = of(JsonClass::String), z = of(JsonClass::Boolean); x.i = 7; y.s = "x"; z.b = true; M a = of(JsonClass::Array);
        if (lit.size() % 2) { *t.j = Json::MakeArray(7, "x"); a.a = {x, y}; } else { *t.j = Json::MakeArray(true, 0.0, std::string("x")); a.a = {z, of(JsonClass::Floating), y}; } *t.m = a; break; }
    case 'A': {
        M v; if (t.m->t != JsonClass::Array) *t.m = of(JsonClass::Array);
        switch (lit.size() % 6) {
        case 0: t.j->Append(int(lit.size())); v = of(JsonClass::Integral); v.i = int(lit.size()); break;
        case 1: t.j->Append(true); v = of(JsonClass::Boolean); v.b = true; break;
        case 2: t.j->Append(0.5); v = of(JsonClass::Floating); v.f = 0.5f; break;
        case 3: t.j->Append("xy"); v = of(JsonClass::String); v.s = "xy"; break;
        case 4: t.j->Append(std::string("z")); v = of(JsonClass::String); v.s = "z"; break;
        default: { *t.m = old; Place s = go(w, sp); t = go(w, tp); v = *s.m; t.j->Append(*s.j); if (t.m->t != JsonClass::Array) *t.m = of(JsonClass::Array); }
        }
        t.m->a.push_back(v); break; }
    }
}
void run_case(const Args& a) {
    static bool warm = false; if (!warm) { warm = true; for (const char* t : {"{bad", "", "{\"a\":1} x"}) JsonDocument{String(t)}; }      // tables built on first use
    ga = &a; long long before = blocks;
    {
        static World* w; w = new World; gn = 0;
        for (auto& x : w->v) x = new JsonData(); for (auto& x : w->d) x = new JsonDocument();
        for (auto& x : w->md) x = of(JsonClass::Object); for (auto& x : w->er) x = Json::JsonError::NoError;
        for (size_t i = 0; i < a.size() && i < 40; ++i) {
            gn = i; step(*w, a[i]);
            for (int k = 0; k < NV; ++k) same(*w->v[k], w->v[k], w->mv[k]);
            for (int k = 0; k < ND; ++k) {
                const JsonDocument& d = *w->d[k]; REQ(d.GetType() == w->md[k].t && d.HasError() == (w->er[k] != Json::JsonError::NoError) && d.GetError() == w->er[k], "the type or the error of a document is wrong" << where());
                if (w->md[k].t == JsonClass::Object) REQ(d.Size() == w->md[k].o.size(), "the size of a document is wrong" << where());
                for (const char* q : {"a", "b", "c", "d"}) REQ(d.HasMember(q) == (w->md[k].key(q) != nullptr), "HasMember(" << q << ") of a document is wrong" << where());
                for (auto& x : w->md[k].o) same(d[String(x.first)], nullptr, x.second);
            }
        }
        for (auto& x : w->v) delete x; for (auto& x : w->d) delete x; delete w;
    }
    REQ(blocks == before, (blocks > before ? "memory is not released" : "memory is released twice") << where());
}
void search(Search& s) {
    for (const char* h : {"s 0 0 a long text that does not fit the small buffer of a string|s 0 0 another text that does not fit the small buffer", "A 0 0 xxx|m 1 0 |A 1 0 xxxx", "x 0 0 c|c 0 00 |c 0 0 ", "k 0 0 a|m 0 0a ", "x 0 0 c",
                          "k 0 0 a|c 0a 0 |c 0 0a ", "j 0 0 a|r 0 0 a", "j 0 0 a|s 3a 0 a long text that does not fit the small buffer|r 0 0 a", "I 0 0 5|B 0 0 |D 0 0 9", "U 0 0 |U 1 0 x|c 00 1 |m 0 01 ", "P 0 0 |f 0 1 ", "P 0 0 |e 1 0 |f 1 0 ", "P 0 0 |h 1 0 ", "P 1 0 |g 0 1 |j 0 0 a"}) {
        Args a; std::istringstream is(h); std::string x; while (std::getline(is, x, '|')) a.push_back(x); s.t(a);
    }
    auto place = [&] { std::string p(1, char('0' + s.below(NV + ND))); size_t n = s.below(4); for (size_t i = 0; i < n; ++i) p += "abcd0123"[s.below(8)]; return p; };
    while (!s.timeup()) {
        Args a; size_t n = 1 + s.below(14);
        for (size_t i = 0; i < n; ++i) {
            std::string op(1, "kkKxxXcccmmmCMbBiIldDspSTUAAAjjrrefghuP"[s.below(38)]), lit;
            if (std::string("iIldD").find(op) != std::string::npos) lit = num(s.coin(4) ? s.dict_int() : (long long)s.below(2000) - 1000);
            else if (std::string("spS").find(op) != std::string::npos) lit = s.coin(3) ? s.dict_str() : s.coin() ? s.bytes(40, "abc \xC3\xA9\xE2\x82\xAC\"\\") : std::string(s.below(40), 'y');
            else lit = s.bytes(6, "abcd");
            if (lit.find('\n') != std::string::npos) lit = "q";
            a.push_back(op + " " + place() + " " + place() + " " + lit);
        }
        s.t(a);
    }
}
