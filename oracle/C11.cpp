#include "bigmodel.h"
// independent reference: a decimal is (canonical integer text, number of fraction digits)
struct Dec { std::string u; size_t s; };
static bool dec_parse(const std::string& t, Dec& d) {          // [sign] digits [. digits], either side of the point possibly empty
    if (t.empty()) return false;
    size_t i = t[0] == '-' || t[0] == '+', n = 0; bool neg = t[0] == '-'; std::string dig; d.s = 0; bool pt = false;
    for (; i < t.size(); ++i) { if (t[i] == '.' && !pt) { pt = true; continue; } if (t[i] < '0' || t[i] > '9') return false; dig += t[i]; ++n; if (pt) ++d.s; }
    if (!pt && n == 0) return false;
    if (pt && d.s == 0) { dig += '0'; d.s = 1; }
    d.u = canon((neg ? "-" : "") + dig); return true;
}
static std::string scaled(const Dec& d, size_t s) { return canon(d.u + std::string(s - d.s, '0')); }
static int dec_cmp(const Dec& a, const Dec& b) { size_t m = std::max(a.s, b.s); return cmpx(scaled(a, m), scaled(b, m)); }
static std::string dec_text(const Dec& d) {
    std::string g = absx(d.u); if (g.size() <= d.s) g.insert(0, d.s - g.size() + 1, '0');
    std::string f = g.substr(g.size() - d.s); std::string r = (isneg(d.u) ? "-" : "") + g.substr(0, g.size() - d.s);
    return f.find_first_not_of('0') == std::string::npos ? r : r + "." + f;
}
static std::string tx(const BigFloat& b) { return b.ToString().str(); }
// the unscaled integer of a printed result at scale s
static std::string at(const BigFloat& b, size_t s, const std::string& what) {
    std::string t = tx(b); Dec d; REQ(dec_parse(t, d), what << " prints " << show(t)); if (t.find('.') == std::string::npos) d.s = 0;
    REQ(d.s <= s && dec_text(d) == t, what << " prints " << show(t) << " with at most " << s << " fraction digits expected");
    return scaled(d, s);
}
static u64 p10m(size_t n, u64 p) { u64 r = 1; while (n--) r = mulm(r, 10, p); return r; }
static u64 subm(u64 a, u64 b, u64 p) { return u64((u128(a) + p - b) % p); }
static void eqsc(const std::string& r, const std::string& a, const std::string& b, int op, const std::string& what) {
    for (u64 p : PR) { u64 x = res(a, p), y = res(b, p), w = op == 0 ? u64((u128(x) + y) % p) : op == 1 ? subm(x, y, p) : mulm(x, y, p); REQ(res(r, p) == w, what << " gave unscaled " << r); }
}
static BigFloat mk(const std::string& t) { return BigFloat(String(t.c_str())); }
template <class F> static bool refused(F f) { try { f(); } catch (const std::invalid_argument&) { return true; } return false; }
static std::string add_texts(const std::string& a, int k) { return txt(big(a) + big(std::to_string(k))); }      // C08 decides BigInteger
// a case: text a, text b, exponent
void run_case(const Args& c) {
    const std::string &x = c[0], &y = c[1]; int n = int(ival(c[2])); Dec a, b;
    bool oa = dec_parse(x, a), ob = dec_parse(y, b);
    if (x.find('\0') == std::string::npos) {
        REQ(refused([&] { mk(x); }) == !oa, "BigFloat(String " << show(x) << ")"); REQ(refused([&] { BigFloat(x.c_str()); }) == !oa, "BigFloat(" << show(x) << ")");
        REQ(refused([&] { operator""_bigfloat(x.c_str(), x.size()); }) == !oa, show(x) << "_bigfloat");
    }
    if (!oa || !ob) return;
    const BigFloat p = mk(x), q = mk(y); size_t m = std::max(a.s, b.s); std::string A = scaled(a, m), B = scaled(b, m);
    REQ(tx(p) == dec_text(a), "BigFloat(" << x << ") prints " << tx(p)); REQ(tx(BigFloat(x.c_str())) == dec_text(a) && tx(operator""_bigfloat(x.c_str(), x.size())) == dec_text(a), "BigFloat(const char*) and the literal of " << x);
    REQ(mk(tx(p)) == p, "text of " << x << " read back"); { std::ostringstream o; o << p; REQ(o.str() == dec_text(a), "<< of " << x); }
    eqsc(at(p.Add(q), m, x + " + " + y), A, B, 0, x + " + " + y); eqsc(at(p.Subtract(q), m, x + " - " + y), A, B, 1, x + " - " + y);
    { std::string s = at(p.Subtract(q), m, "-"); int d = cmpx(A, B); REQ((cmpx(s, "0") > 0 ? 1 : s == "0" ? 0 : -1) == d, "sign of " << x << " - " << y); std::string t = at(p.Add(q), m, "+"); REQ(absx(t).size() <= std::max(A.size(), B.size()) + 1, "size of a sum"); REQ(absx(s).size() <= std::max(A.size(), B.size()) + 1, "size of a difference"); }
    std::string mul = at(p.Multiply(q), a.s + b.s, x + " * " + y); eqsc(mul, a.u, b.u, 2, x + " * " + y); REQ(absx(mul).size() <= a.u.size() + b.u.size() && (mul == "0" || isneg(mul) == (isneg(a.u) != isneg(b.u))), "size or sign of " << x << " * " << y);
    REQ(tx(p + q) == tx(p.Add(q)) && tx(p - q) == tx(p.Subtract(q)) && tx(p * q) == tx(p.Multiply(q)), "operators differ from the members");
    REQ(tx(p.Sqr()) == tx(p.Multiply(p)), "Sqr of " << x); { Dec z = a; z.u = absx(a.u); REQ(tx(p.Abs()) == dec_text(z), "Abs of " << x); }
    int d = dec_cmp(a, b);
    REQ(p.Equal(q) == (d == 0) && p.LessThan(q) == (d < 0) && p.GreaterThan(q) == (d > 0), "Equal/LessThan/GreaterThan of " << x << " and " << y);
    REQ((p < q) == (d < 0) && (p > q) == (d > 0) && (p <= q) == (d <= 0) && (p >= q) == (d >= 0) && (p == q) == (d == 0) && (p != q) == (d != 0), "comparison operators on " << x << " and " << y);
    REQ(refused([&] { p.Divide(q); }) == (b.u == "0") && refused([&] { p / q; }) == (b.u == "0"), x << " / " << y << " refused");
    if (b.u != "0") {      // |A*10^m ... | : quotient truncated toward zero at m fraction digits
        std::string num_ = canon(a.u + std::string(m + b.s - a.s, '0')), qt = at(p.Divide(q), m, x + " / " + y);
        // num = qt*b.u + rem with |rem| < |b.u| and the sign of num
        BigInteger rem = big(num_) - big(qt) * big(b.u); std::string r = txt(rem);
        for (u64 P : PR) REQ(res(r, P) == subm(res(num_, P), mulm(res(qt, P), res(b.u, P), P), P), "remainder");
        REQ(cmpabs(absx(r), absx(b.u)) < 0 && (r == "0" || isneg(r) == isneg(num_)), x << " / " << y << " gave " << qt << " at " << m << " fraction digits"); REQ(tx(p / q) == tx(p.Divide(q)), "operator/");
    }
    bool neg = isneg(a.u); REQ(refused([&] { p.Sqrt(); }) == neg, "Sqrt of " << x);
    if (!neg && a.u.size() + a.s < 60) { std::string r = at(p.Sqrt(), a.s, "Sqrt of " + x), v = canon(a.u + std::string(a.s, '0')); std::string lo = txt(big(r).Sqr()), r1 = add_texts(r, 1), hi = txt(big(r1).Sqr()); REQ(cmpx(lo, v) <= 0 && cmpx(v, hi) < 0, "Sqrt of " << x << " gave " << r << " at " << a.s << " digits"); }
    REQ(refused([&] { p.Pow(n); }) == (n < 0), "Pow(" << n << ")");
    if (n >= 0) { if (n > 60) { REQ(a.s == 0 && absx(a.u).size() == 1 && absx(a.u)[0] < '2', "harness: large exponent"); REQ(tx(p.Pow(n)) == (a.u == "0" ? "0" : neg && n % 2 ? "-1" : "1"), x << " to the " << n << " gave " << tx(p.Pow(n))); return; } std::string w = at(p.Pow(n), a.s * n, "Pow"); for (u64 P : PR) { u64 e = 1; for (int k = 0; k < n; ++k) e = mulm(e, res(a.u, P), P); REQ(res(w, P) == e, x << " to the " << n << " gave " << w); } REQ(w == "0" || isneg(w) == (neg && n % 2), "sign of a power"); }
    BigFloat cp(p); REQ(tx(cp) == tx(p), "copy"); BigFloat mv(std::move(cp)); REQ(tx(mv) == tx(p), "move"); { Dec z; REQ(dec_parse(tx(cp), z) && cp == cp && !(cp < cp), "moved-from"); cp + q; }
    cp = q; REQ(tx(cp) == tx(q), "assignment"); mv = cp; REQ(tx(mv) == tx(q) && tx(cp) == tx(q), "assignment"); const BigFloat& al = mv; mv = al; REQ(tx(mv) == tx(q), "self-assignment");
    cp = mk(x); mv = std::move(cp); REQ(tx(mv) == tx(p), "move assignment"); REQ(cp == cp, "moved-from"); REQ(tx(p) == dec_text(a) && tx(q) == dec_text(b), "operands changed");
    { std::string dg = absx(a.u); REQ(p.Size() == (dg == "0" ? 0 : dg.size()), "Size of " << x); }
    BigFloat z; REQ(tx(z) == "0" && tx(z + p) == tx(p), "BigFloat{} is 0");
}
static std::string rnd_dec(Search& s) {
    if (s.coin(12)) { std::string t; for (size_t i = s.below(6); i; --i) t += "+-.0123456789 ae"[s.below(16)]; return t; }
    std::string t = rnd_int(s); if (s.coin(3)) t = canon(t.substr(0, 4) == "-" ? "-1" : t.substr(0, 4));
    size_t k = s.below(4); if (k == 0) return s.coin(4) ? "+" + absx(t) : t;
    std::string f; size_t n = k < 3 ? s.below(5) : s.below(30); for (size_t i = 0; i < n; ++i) f += s.coin(3) ? '0' : s.coin(3) ? '9' : char('0' + s.below(10));
    if (s.coin(8)) t = isneg(t) ? "-" : ""; if (s.coin(6)) t = isneg(t) ? "-0" : "0";
    return t + "." + f;
}
void search(Search& s) {
    std::vector<std::string> v = {"", "-", "+", ".", "-.", "+.", "1.", ".5", "-.5", "+.5", "-0.5", "0", "-0", "0.0", "-0.00", "1", "1.0", "-1", "-1.05", "1.05", "1.005", "10.5", "0.95", "0.05", "9.99", "-9.99", "0.001", "2", "4", "0.25", "2.25", "0.3", "-0.3", "00.10", "1.2.3", "1e5", " 1", "1 ", "1.-5", "100", "1000000", "-100.001", "..", "1..2", "a", "0x1", "12.50", "\xd9\xa1", "3.14"};
    for (auto& a : v) for (auto& b : v) s.t({a, b, num((long long)((a.size() * 3 + b.size()) % 6) - 1)});
    for (auto b : {"1", "-1", "0"}) for (long long e : {127LL, 128LL, 255LL, 256LL, 32767LL, 32768LL, 65535LL, 65536LL, 65537LL, 131073LL, 1048577LL, 16777217LL, 2147483647LL}) s.t({b, "1", num(e)});
    while (!s.timeup()) { std::string x = rnd_dec(s), y = s.coin(8) ? x : rnd_dec(s);
        if (s.coin(5)) { y = x; if (y.size()) { y[s.below(y.size())] = char('0' + s.below(10)); if (y.find('.') != std::string::npos && s.coin()) y += "0"; } }
        s.t({x, y, num(s.coin(6) ? -(long long)s.below(5) : (long long)s.below(x.size() > 30 ? 3 : 9))}); if (!s.thorough && orc::count > 6000) break; }
}
