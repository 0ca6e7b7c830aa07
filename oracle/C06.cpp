#include "strmodel.h"
// an argument: 's' text, 'i' number, 'u' unsigned 64-bit number, 'b' 0 or 1
struct Bad {};
static bool dig(const M& f, size_t i) { return i < f.size() && (f[i].size() == 1 ? f[i][0] >= '0' && f[i][0] <= '9' : Caitlyn::IsDigit(Char(f[i].c_str()).GetCodePoint())); }
static bool is(const M& f, size_t i, char c) { return i < f.size() && f[i].size() == 1 && f[i][0] == c; }
static unsigned long long number(const M& f, size_t& i, unsigned long long top) {
    unsigned long long v = 0; bool any = false, stop = false;
    for (; dig(f, i); ++i) {
        if (f[i].size() != 1) stop = true;
        if (stop) continue;
        unsigned d = unsigned(f[i][0] - '0');
        if (v > (top - d) / 10) throw Bad();
        v = v * 10 + d; any = true;
    }
    if (!any) throw Bad();
    return v;
}
static bool skip;
static M layout(const M& arg, const M& sp) {        // sp starts with ':'
    size_t p = 1; std::string fill = " "; char side = '<';
    auto mark = [&](size_t i) { return is(sp, i, '<') || is(sp, i, '>') || is(sp, i, '^'); };
    if (mark(p + 1)) { fill = sp[p]; side = sp[p + 1][0]; p += 2; }
    else if (mark(p)) { side = sp[p][0]; ++p; }
    unsigned long long width = 0; long long prec = -1;
    if (dig(sp, p)) width = number(sp, p, ~0ull);
    if (is(sp, p, '.')) { ++p; if (dig(sp, p)) prec = (long long)number(sp, p, 0x7fffffff); }
    M v = arg;
    if (is(sp, p, 'f')) {
        if (prec > 5000) { skip = true; return v; }
        size_t dot = 0; while (dot < v.size() && v[dot] != ".") ++dot;
        if (dot < v.size()) {
            M r(v.begin(), v.begin() + long(dot) + 1); size_t k = dot + 1; long long n = 0;
            for (; n < prec && dig(v, k); ++n, ++k) r.push_back(v[k]);
            for (; n < prec; ++n) r.push_back("0");
            v = r;
        } else if (prec > 0) { v.push_back("."); for (long long n = 0; n < prec; ++n) v.push_back("0"); }
    }
    if (width > 5000) { skip = true; return v; }
    if (width > v.size()) {
        size_t n = size_t(width) - v.size(), l = side == '<' ? 0 : side == '>' ? n : n / 2;
        v.insert(v.begin(), l, fill); v.insert(v.end(), n - l, fill);
    }
    return v;
}
static std::string expect(const M& f, const std::vector<M>& args) {
    std::string out; size_t next = 0;
    for (size_t i = 0; i < f.size();) {
        if (is(f, i, '{') && is(f, i + 1, '{')) { out += "{"; i += 2; continue; }
        if (is(f, i, '}') && is(f, i + 1, '}')) { out += "}"; i += 2; continue; }
        if (is(f, i, '}')) throw Bad();
        if (!is(f, i, '{')) { out += f[i++]; continue; }
        size_t e = i; while (e < f.size() && !is(f, e, '}')) ++e;
        if (e == f.size()) throw Bad();
        M sp(f.begin() + long(i) + 1, f.begin() + long(e)); i = e + 1;
        size_t n, p = 0; bool lay;
        if (dig(sp, 0)) {
            unsigned long long k = number(sp, p, ~0ull);
            if (k >= args.size()) throw Bad();
            n = size_t(k); sp.erase(sp.begin(), sp.begin() + long(p));
            lay = is(sp, 0, ':');
            if (!lay && !sp.empty()) continue;
        } else { n = args.size() > 1 ? next++ : 0; if (n >= args.size()) throw Bad(); lay = is(sp, 0, ':'); }
        for (auto& c : lay ? layout(args[n], sp) : args[n]) out += c;
    }
    return out;
}
// the first argument keeps its type; the others are passed as text
template <class T> static std::string call(const String& f, const std::vector<M>& t, const T& x) {
    return (t.size() == 1 ? String::Format(f, x) : t.size() == 2 ? String::Format(f, x, mk(t[1])) : String::Format(f, x, mk(t[1]), mk(t[2]))).str();
}
static std::string call(const String& f, const Args& a, const std::vector<M>& t) {
    if (t.empty()) return String::Format(f).str();
    const std::string v = a[1].substr(1);
    switch (a[1][0]) {
        case 'i': return call(f, t, int(ival(v)));
        case 'u': return call(f, t, Caitlyn::UInt64(strtoull(v.c_str(), nullptr, 10)));
        case 'b': return call(f, t, v == "1");
        default: return call(f, t, mk(t[0]));
    }
}
void run_case(const Args& a) {
    std::vector<M> args;
    for (size_t i = 1; i < a.size(); ++i) {
        std::string v = a[i].substr(1);
        if (a[i][0] == 'i') v = std::to_string(int(ival(v)));
        if (a[i][0] == 'u') v = std::to_string(strtoull(v.c_str(), nullptr, 10));
        if (a[i][0] == 'b') v = v == "1" ? "true" : "false";
        args.push_back(msplit(v));
    }
    M f = msplit(a[0]); skip = false;
    std::string want, got; bool bad = false, threw = false;
    try { want = expect(f, args); } catch (Bad&) { bad = true; }
    if (skip) return;
    String F = mk(f);
    try { got = call(F, a, args); }
    catch (const std::exception&) { threw = true; }
    REQ(bad == threw, "Format(" << show(a[0]) << ") with " << args.size() << " arguments " << (threw ? "throws" : "gives " + show(got)) << " instead of " << (bad ? "an exception" : show(want)));
    if (!bad) REQ(got == want, "Format(" << show(a[0]) << ") gives " << show(got) << " instead of " << show(want));
    same(F, f, "the format string");
}
void search(Search& s) {
    auto rnd = [&](std::vector<std::string> w) { return w[s.below(w.size())]; };
    const std::vector<std::string> base{"", "a", "{}", "{0}", "{1}", "{{", "}}", "{", "}", "{:}", "{0:}", "{:>5}", "{:*^7}", "{:<}", "{:.2f}", "{:8.3f}", "{0:d}", "{:s}", "{2}x", "{} {}", "{} {} {}", "{0} {}", "{} {0} {}", "{:{<4}", "{99999999999999999999}",
        "{18446744073709551616}", "{:99999999999999999999}", "{:.9999999999f}", "{:.f}", "{:.0f}", "{0x}", "{x}", "{}}", "{{}", "{{}}", "{{{}}}", "{:<<3}", "{:^^4}", "{:5d}", "{:^5}|{:>3}", "{:0>4}", "{:05}"};
    const std::vector<std::string> vals{"s", "sab", "s3.14159", "s2", "s7.", "s.5", "s1.2.3", "sé€", "s-0.05x", "i0", "i-12", "i2147483647", "u18446744073709551615", "b1", "b0", "s{}", "s1.5e3"};
    for (auto& b : base) { s.t({b}); for (auto& v : vals) { s.t({b, v}); s.t({b, v, rnd(vals)}); s.t({b, rnd(vals), v, rnd(vals)}); } }
    for (auto k : {"255", "256", "65535", "65536", "2147483648", "4294967295", "4294967296", "4294967297", "8589934592", "9223372036854775808", "18446744073709551615", "18446744073709551616", "000"}) for (auto t : {"", ":", ":>5", "x"}) { s.t({"{" + std::string(k) + t + "}", "sab"}); s.t({"{" + std::string(k) + t + "}", "sab", "i7"}); s.t({"{:" + std::string(k) + "." + k + t + "}", "s1.5"}); }
    while (!s.timeup()) {
        if (!s.thorough && orc::count > 60000) break;
        std::string f; int n = 1 + int(s.below(5));
        for (int i = 0; i < n; ++i) switch (s.below(6)) {
            case 0: f += rnd_text(s, s.below(4)); break;
            case 1: f += rnd({"{{", "}}", "{", "}", "x", " "}); break;
            case 2: f += rnd(base); break;
            default: {
                f += "{";
                if (s.coin()) f += std::to_string(s.below(4));
                if (s.coin(12)) f += rnd({"x", " ", "9", "é"});
                if (!s.coin(4)) {
                    f += ":";
                    if (s.coin(3)) f += rnd({"*", "é", "<", " ", "0", "{", "€", ":"});
                    if (s.coin()) f += rnd({"<", ">", "^"});
                    if (s.coin()) f += std::to_string(s.coin(10) ? s.below(300) : s.below(13));
                    if (s.coin(3)) { f += "."; if (!s.coin(5)) f += std::to_string(s.below(9)); }
                    if (s.coin()) f += rnd({"f", "f", "d", "s", "q"});
                }
                f += "}";
            }
        }
        Args a{f}; int k = int(s.below(4));
        for (int i = 0; i < k; ++i) {
            if (s.coin(4)) a.push_back("s" + rnd_text(s, s.below(8)));
            else if (s.coin(4)) { std::string v = "s" + std::to_string(s.below(2000)); if (s.coin()) v += "." + std::to_string(s.below(100000)); if (s.coin(6)) v += "x"; a.push_back(v); }
            else a.push_back(rnd(vals));
        }
        s.t(a);
    }
}
