#include "bigmodel.h"
// a case: a, b
void run_case(const Args& c) {
    const std::string &x = c[0], &y = c[1];
    BigInteger a = big(x), b = big(y);
    std::string q, r; bool t1 = false, t2 = false;
    try { q = good(a.Divide(b), "quotient"); } catch (const std::invalid_argument&) { t1 = true; }
    try { r = good(a.Modulo(b), "remainder"); } catch (const std::invalid_argument&) { t2 = true; }
    REQ(t1 == (y == "0") && t2 == t1, "division of " << x << " by " << y << (t1 ? " was refused" : " was accepted"));
    if (!t1) {
        for (u64 p : PR) REQ(res(x, p) == (u128(mulm(res(q, p), res(y, p), p)) + res(r, p)) % p, x << " = " << q << " * " << y << " + " << r);
        REQ(cmpabs(absx(r), absx(y)) < 0, "remainder " << r << " of " << x << " by " << y);
        REQ(r == "0" || isneg(r) == isneg(x), "sign of the remainder " << r << " of " << x << " by " << y);
        REQ(q == "0" || isneg(q) == (isneg(x) != isneg(y)), "sign of the quotient " << q << " of " << x << " by " << y);
        REQ(absx(q).size() <= absx(x).size(), "size of the quotient");
        REQ(txt(a / b) == q && txt(a % b) == r, "operators differ from the members");
    }
    REQ(txt(a) == x && txt(b) == y, "operands changed");
    std::string w; bool t3 = false; if (x.size() > 60) return;
    try { w = good(a.Sqrt(), "root"); } catch (const std::invalid_argument&) { t3 = true; }
    REQ(t3 == isneg(x), "Sqrt of " << x << (t3 ? " was refused" : " was accepted"));
    if (!t3) { BigInteger v = big(w); REQ(!isneg(w) && cmpx(txt(v.Multiply(v)), x) <= 0 && cmpx(txt((v + big("1")).Multiply(v + big("1"))), x) > 0, "Sqrt of " << x << " is " << w); }
}
void search(Search& s) {
    for (int i = -40; i <= 40; ++i) for (int j = -12; j <= 12; ++j) s.t({num(i), num(j)});
    for (int i = 0; i < 1100; ++i) s.t({num(i), num(i % 23 - 11)});
    while (!s.timeup()) { std::string x = rnd_int(s), y = s.coin(8) ? x : rnd_int(s); if (s.coin(6)) y = y.substr(0, 1 + s.below(y.size())); if (!numeral(y)) y = "7"; s.t({x, canon(y)});
        if (s.coin(4)) { BigInteger k = big(absx(rnd_int(s).substr(0, 20))); if (numeral(txt(k))) { s.t({txt(k * k), y = "3"}); s.t({txt(k * k - big("1")), y}); } }
        if (!s.thorough && orc::count > 4500) break; }
}
