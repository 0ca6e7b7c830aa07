#include "bigmodel.h"
// a case: a, b
void run_case(const Args& c) {
    const std::string &x = c[0], &y = c[1]; int d = cmpx(x, y);
    BigInteger a = big(x), b = big(y);
    REQ(a.Equal(b) == (d == 0) && a.LessThan(b) == (d < 0) && a.GreaterThan(b) == (d > 0), "Equal/LessThan/GreaterThan of " << x << " and " << y);
    REQ((a < b) == (d < 0) && (a > b) == (d > 0) && (a <= b) == (d <= 0) && (a >= b) == (d >= 0) && (a == b) == (d == 0) && (a != b) == (d != 0), "operators on " << x << " and " << y);
    BigInteger cp(a); REQ(txt(cp) == x && txt(a) == x, "copy of " << x);
    BigInteger mv(std::move(cp)); REQ(txt(mv) == x, "move of " << x);
    good(cp, "moved-from"); good(cp + b, "moved-from + b"); REQ(!(cp < cp) && cp.Equal(cp), "moved-from compares");
    cp = b; REQ(txt(cp) == y, "assignment to a moved-from number"); mv = cp; REQ(txt(mv) == y && txt(cp) == y, "assignment");
    const BigInteger& al = mv; mv = al; REQ(txt(mv) == y, "self-assignment"); a = std::move(mv); REQ(txt(a) == y, "move assignment"); good(mv, "moved-from"); mv = b; mv = std::move(cp); REQ(txt(mv) == y, "move assignment"); good(cp, "moved-from"); REQ(cp == cp && !(cp < cp), "moved-from");
    BigInteger z = big("0"); REQ((cp < z) == (cmpx(txt(cp), "0") < 0) && (cp == z) == (txt(cp) == "0"), "moved-from compared with 0");
}
void search(Search& s) {
    for (int i = -25; i <= 25; ++i) for (int j = -25; j <= 25; ++j) s.t({num(i), num(j)});
    while (!s.timeup()) { std::string x = rnd_int(s), y = s.coin(3) ? x : rnd_int(s);
        if (s.coin()) { y = x; size_t i = s.below(y.size()); y[i] = char('0' + s.below(10)); if (!numeral(y)) y = x; y = canon(y); if (s.coin(4)) y = canon(isneg(y) ? absx(y) : "-" + y); }
        s.t({x, y}); if (!s.thorough && orc::count > 15000) break; }
}
