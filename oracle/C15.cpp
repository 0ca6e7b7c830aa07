#include "Caitlyn/__Core/String.h"
#include "Caitlyn/__Core/Error.h"
#include <memory>
#include "oracle.h"
using namespace Caitlyn;
// objects that know whether they are alive
static std::map<const void*, int> live; static int countdown = -1, made = 0; static bool bad = false; static std::string badwhy;
static void wrong(const char* w) { if (!bad) badwhy = w; bad = true; }
template <int K> struct Tr {
    int v; std::vector<int>* heap;
    void born() { if (live.count(this)) wrong("an object is constructed over a live one"); live[this] = K; ++made; }
    void use() const { auto i = live.find(this); if (i == live.end()) wrong("an object is used that is not alive"); else if (i->second != K) wrong("an object is read as the other type"); }
    Tr() : v(-7), heap(new std::vector<int>(1, -7)) { born(); }
    explicit Tr(int x) : v(x), heap(new std::vector<int>(1, x)) { born(); }
    Tr(const Tr& o) : v(0), heap(nullptr) { o.use(); if (countdown >= 0 && countdown-- == 0) throw std::domain_error("copy"); v = o.v; heap = new std::vector<int>(*o.heap); born(); }
    Tr(Tr&& o) noexcept : v(o.v), heap(o.heap) { o.use(); o.v = -99; o.heap = new std::vector<int>(1, -99); born(); }
    Tr& operator=(const Tr& o) { use(); o.use(); if (countdown >= 0 && countdown-- == 0) throw std::domain_error("copy"); v = o.v; *heap = *o.heap; return *this; }
    Tr& operator=(Tr&& o) noexcept { use(); o.use(); if (this != &o) { v = o.v; *heap = *o.heap; o.v = -99; (*o.heap)[0] = -99; } return *this; }
    ~Tr() { auto i = live.find(this); if (i == live.end()) wrong("an object is destroyed that is not alive"); else { if (i->second != K) wrong("an object is destroyed as the other type"); live.erase(i); delete heap; } }
    int get() const { use(); return live.count(this) && heap ? (*heap)[0] : -1000; }
};
template <int K> bool operator==(const Tr<K>& a, const Tr<K>& b) { return a.get() == b.get(); }
template <class T> struct Mk; 
template <int K> struct Mk<Tr<K>> { static Tr<K> make(int v) { return Tr<K>(v); } static int get(const Tr<K>& t) { return t.get(); } static int def() { return -7; } };
template <> struct Mk<int> { static int make(int v) { return v; } static int get(int v) { return v; } static int def() { return 0; } };
template <> struct Mk<String> { static String make(int v) { return String("text that is long enough to live on the heap ") + String(std::to_string(v).c_str()); }
    static int get(const String& s) { std::string x = s.str(); return x.empty() ? 0 : atoi(x.c_str() + x.rfind(' ') + 1); } static int def() { return 0; } };
struct St { bool has; int v; };
static bool same(St a, St b) { return a.has == b.has && a.v == b.v; }
template <class T, class E> St look(const Expected<T, E>& e) {
    St s; s.has = e.HasValue();
    REQ(e.HasError() == !s.has && static_cast<bool>(e) == s.has, "HasValue, HasError and bool disagree");
    if (s.has) { s.v = Mk<T>::get(e.Get()); bool t = false; try { e.GetError(); } catch (const std::logic_error&) { t = true; } REQ(t, "GetError() of a value does not throw std::logic_error"); }
    else { s.v = Mk<E>::get(e.GetError()); bool t = false; try { e.Get(); } catch (const std::logic_error&) { t = true; } REQ(t, "Get() of an error does not throw std::logic_error"); }
    return s;
}
#define EXPECT(got, want, what) REQ(same(got, want), what << " gives " << ((got).has ? "value " : "error ") << (got).v << ", expected " << ((want).has ? "value " : "error ") << (want).v)
template <class T, class E> void run(const Args& a) {
    typedef Expected<T, E> X; typedef Mk<T> MT; typedef Mk<E> ME;
    std::unique_ptr<X> s[3]; St m[3]; bool known[3];
    for (int i = 0; i < 3; ++i) { s[i].reset(new X(MT::make(i))); m[i] = St{true, i}; known[i] = true; }
    for (size_t k = 1; k < a.size(); ++k) {
        std::istringstream is(a[k]); char op = 0; int i = 0, j = 0, v = 0, cd = -1; is >> op >> i >> j >> v >> cd; i = ((i % 3) + 3) % 3; j = ((j % 3) + 3) % 3;
        X& x = *s[i]; X& y = *s[j]; St mx = m[i], my = m[j]; int calls = 0; St arg{false, -5};
        auto sawT = [&](const T& t) { ++calls; arg = St{true, MT::get(t)}; }; auto sawE = [&](const E& t) { ++calls; arg = St{false, ME::get(t)}; };
        auto once = [&](bool want, const char* n) { REQ(calls == (want ? 1 : 0), n << " called its function " << calls << " times"); if (want) REQ(same(arg, mx), n << " passed " << arg.v << " to its function, expected " << mx.v); };
        bool threw = false; countdown = cd; St got; 
        try {
            switch (op) {
            case 'v': { T t = MT::make(v); x = X(t); m[i] = St{true, v}; break; }
            case 'w': x = X(MT::make(v)); m[i] = St{true, v}; break;
            case 'e': { Unexpected<E> u{ME::make(v)}; x = X(u); m[i] = St{false, v}; break; }
            case 'f': x = X(Unexpected<E>{ME::make(v)}); m[i] = St{false, v}; break;
            case 'c': x = y; m[i] = my; known[i] = known[j]; break;
            case 'C': { X z(y); s[i].reset(new X(z)); m[i] = my; known[i] = known[j]; break; }
            case 'm': x = std::move(y); if (i != j) { m[i] = my; known[i] = known[j]; known[j] = false; } break;
            case 'M': { X z(std::move(y)); bool kj = known[j]; known[j] = false; known[i] = kj; m[i] = my; s[i].reset(new X(std::move(z))); break; }
            case 'p': if (known[i]) { countdown = -1; auto r = x.Map([&](const T& t) { sawT(t); return v; }); static_assert(std::is_same<decltype(r), Expected<int, E>>::value, ""); got = look(r); EXPECT(got, (mx.has ? St{true, v} : mx), "Map"); once(mx.has, "Map"); } break;
            case 'P': if (known[i]) { auto r = x.MapError([&](const E& t) { sawE(t); return Tr<2>(v); }); got = look(r); EXPECT(got, (mx.has ? mx : St{false, v}), "MapError"); once(!mx.has, "MapError"); } break;
            case 'a': if (known[i]) { auto r = x.AndThen([&](const T& t) { sawT(t); return y; }); if (known[j]) { got = look(r); EXPECT(got, (mx.has ? my : mx), "AndThen"); } once(mx.has, "AndThen"); } break;
            case 't': if (known[i]) { auto r = x.Then([&](const T& t) { sawT(t); return y; }); if (known[j]) { got = look(r); EXPECT(got, (mx.has ? my : mx), "Then"); } once(mx.has, "Then"); } break;
            case 'o': if (known[i]) { auto r = x.OrElse([&](const E& t) { sawE(t); return y; }); if (known[j]) { got = look(r); EXPECT(got, (mx.has ? mx : my), "OrElse"); } once(!mx.has, "OrElse"); } break;
            case 'h': if (known[i]) { auto r = x.CatchError([&](const E& t) { sawE(t); return y; }); if (known[j]) { got = look(r); EXPECT(got, (mx.has ? mx : my), "CatchError"); } once(!mx.has, "CatchError"); } break;
            case 'O': if (known[i]) { auto r = x.OnError([&](const E& t) { sawE(t); return 1; }); got = look(r); EXPECT(got, mx, "OnError"); once(!mx.has, "OnError"); } break;
            case 'u': if (known[i]) { T t = MT::make(v); int r = MT::get(x.UnwrapOr(t)); REQ(r == (mx.has ? mx.v : v), "UnwrapOr gives " << r); } break;
            case 'U': if (known[i]) { int r = MT::get(x.UnwrapOrElse([&](const E& t) { sawE(t); return MT::make(v); })); REQ(r == (mx.has ? mx.v : v), "UnwrapOrElse gives " << r); once(!mx.has, "UnwrapOrElse"); } break;
            case 'd': if (known[i]) { int r = MT::get(x.UnwrapOrDefault()); REQ(r == (mx.has ? mx.v : MT::def()), "UnwrapOrDefault() gives " << r); T t = MT::make(v); const T& q = x.UnwrapOrDefault(t); r = MT::get(q); REQ(r == (mx.has ? mx.v : v), "UnwrapOrDefault(value) gives " << r); } break;
            case 'g': if (known[i]) { auto r = x.Filter([&](const T& t) { sawT(t); return v % 2 == 0; }); got = look(r); EXPECT(got, (!mx.has || v % 2 == 0 ? mx : St{false, ME::def()}), "Filter"); once(mx.has, "Filter"); } break;
            case 'l': if (known[i]) { int r = x.Fold(v, [&](int q, const T& t) { sawT(t); REQ(q == v, "Fold passed " << q); return q + 1; }); REQ(r == (mx.has ? v + 1 : v), "Fold gives " << r); once(mx.has, "Fold"); } break;
            case 'n': if (known[i]) { int r = x.Inspect([&](const T& t, int q) { sawT(t); return q + 1; }, [&](const E& t, int q) { sawE(t); return q + 2; }, v); REQ(r == v + (mx.has ? 1 : 2), "Inspect gives " << r); once(true, "Inspect"); } break;
            case 'z': if (known[i]) { int r = x.Customize([&](const X& q) { got = look(q); EXPECT(got, mx, "Customize"); return v; }); REQ(r == v, "Customize gives " << r); } break;
            case 'x': if (known[i]) { bool th = false; try { int r = MT::get(x.Expect(String("message"))); REQ(r == mx.v && mx.has, "Expect gives " << r); } catch (const std::runtime_error& e) { th = true; REQ(std::string(e.what()) == "message", "Expect throws " << e.what()); } REQ(th == !mx.has, "Expect throws or not");
                th = false; try { int r = ME::get(x.ExpectError("message")); REQ(r == mx.v && !mx.has, "ExpectError gives " << r); } catch (const std::runtime_error& e) { th = true; REQ(std::string(e.what()) == "message", "ExpectError throws " << e.what()); } REQ(th == mx.has, "ExpectError throws or not"); } break;
            case 'k': { countdown = -1; Unexpected<E> u1 = MakeError(ME::make(v)); REQ(ME::get(u1.Get()) == v, "MakeError holds " << ME::get(u1.Get()));
                { Unexpected<E> u2{ME::make(j)}; REQ((u1 == u2) == (v == j) && (u1 != u2) == (v != j), "comparison of Unexpected " << v << " and " << j); }
                { std::string w = "some longer message text number " + std::to_string(v); REQ(MakeError(w.c_str()).Get().str() == w && MakeError(String(w.c_str())).Get().str() == w, "MakeError of the text " << w); } X c = MakeCorrect<T, E>(MT::make(v)); got = look(c); St w{true, v}; EXPECT(got, w, "MakeCorrect"); break; }
            }
        } catch (const std::domain_error&) { threw = true; }
        countdown = -1;
        REQ(!bad, "after `" << a[k] << "`: " << badwhy);
        if (threw) { m[i] = mx; if (op == 'M' || op == 'C') break; }
        for (int q = 0; q < 3; ++q) if (s[q]) { if (known[q]) { got = look(*s[q]); REQ(same(got, m[q]), "after `" << a[k] << "`" << (threw ? " (a copy threw)" : "") << " slot " << q << " holds " << (got.has ? "value " : "error ") << got.v << ", expected " << (m[q].has ? "value " : "error ") << m[q].v); } else look(*s[q]); }
        REQ(!bad, "after `" << a[k] << "`: " << badwhy);
    }
}
template <class T, class E> void warm() { Expected<T, E> x(Unexpected<E>{Mk<E>::make(1)}); x.UnwrapOrDefault(); }
void run_case(const Args& a) {
    static bool once = false; static size_t base = 0;
    if (!once) { once = true; warm<Tr<0>, Tr<1>>(); warm<int, Tr<1>>(); warm<Tr<0>, int>(); warm<String, int>(); warm<int, String>(); warm<Tr<0>, Tr<0>>(); base = live.size(); }   // its default values live on
    countdown = -1;
    int t = a.size() ? atoi(a[0].c_str()) : 0;
    switch (t) { case 0: run<Tr<0>, Tr<1>>(a); break; case 1: run<int, Tr<1>>(a); break; case 2: run<Tr<0>, int>(a); break; case 3: run<String, int>(a); break; case 4: run<int, String>(a); break; default: run<Tr<0>, Tr<0>>(a); }
    REQ(!bad, "at the end: " << badwhy);
    REQ(live.size() == base, live.size() - base << " objects are never destroyed");
}
void search(Search& s) {
    const std::string ops = "vwefcCmMpPathoOuUdglnzxk"; auto op = [&](char c, int i, int j, int v, int cd) { return std::string(1, c) + " " + num(i) + " " + num(j) + " " + num(v) + (cd >= 0 ? " " + num(cd) : ""); };
    for (int t = 0; t < 6; ++t) for (char pre : std::string("ve")) for (char pre2 : std::string("ve")) for (char c : ops) for (int j = 0; j < 2; ++j) for (int v = 3; v < 5; ++v) for (int cd = -1; cd < 3; ++cd) s.t({num(t), op(pre, 0, 0, 21, -1), op(pre2, 1, 0, 22, -1), op(c, 0, j, v, cd)});
    while (!s.timeup()) {
        Args a{num((long long)s.below(6))}; size_t n = 1 + s.below(12);
        for (size_t k = 0; k < n; ++k) a.push_back(op(ops[s.below(s.coin() ? 8 : ops.size())], int(s.below(3)), int(s.below(3)), int(s.coin(8) ? s.dict_int() & 0xffffff : s.below(50)), s.coin(3) ? int(s.below(4)) : -1));
        s.t(a);
        if (!s.thorough && orc::count > 60000) break;
    }
}
