#include "bigmodel.h"
// a case: a, b, n
void run_case(const Args& c) {
    const std::string &x = c[0], &y = c[1]; int n = int(ival(c[2]));
    BigInteger a = big(x), b = big(y);
    std::string add = good(a.Add(b), "a+b"), sub = good(a.Subtract(b), "a-b"), mul = good(a.Multiply(b), "a*b");
    u64 A[2], B[2]; for (int i = 0; i < 2; ++i) { A[i] = res(x, PR[i]); B[i] = res(y, PR[i]); }
    auto m = [&](u64 v, u64 w, int i, int k) { u64 p = PR[i]; return k == 0 ? u64((u128(v) + w) % p) : k == 1 ? u64((u128(v) + p - w) % p) : mulm(v, w, p); };
    eqres(add, m(A[0], B[0], 0, 0), m(A[1], B[1], 1, 0), x + " + " + y); eqres(sub, m(A[0], B[0], 0, 1), m(A[1], B[1], 1, 1), x + " - " + y); eqres(mul, m(A[0], B[0], 0, 2), m(A[1], B[1], 1, 2), x + " * " + y);
    size_t la = absx(x).size(), lb = absx(y).size(), mx = std::max(la, lb);
    REQ(absx(add).size() <= mx + 1 && absx(sub).size() <= mx + 1 && absx(mul).size() <= la + lb, "size of a result of " << x << " and " << y);
    REQ(mul == "0" || isneg(mul) == (isneg(x) != isneg(y)), "sign of " << x << " * " << y);
    REQ(txt(a + b) == add && txt(a - b) == sub && txt(a * b) == mul, "operators differ from the members");
    REQ(txt(a) == x && txt(b) == y, "operands changed");
    std::string sq = good(a.Sqr(), "Sqr"); eqres(sq, mulm(A[0], A[0], PR[0]), mulm(A[1], A[1], PR[1]), "Sqr of " + x); REQ(!isneg(sq), "Sqr negative");
    REQ(good(a.Abs(), "Abs") == absx(x), "Abs of " << x);
    REQ(good(a.Add(a), "a+a") == good(a.Multiply(big("2")), "2a"), "a + a of " << x); REQ(good(a.Subtract(a), "a-a") == "0", "a - a");
    bool threw = false; std::string pw;
    try { pw = good(a.Pow(n), "Pow"); } catch (const std::invalid_argument&) { threw = true; }
    REQ(threw == (n < 0), "Pow with exponent " << n);
    if (!threw) { u64 w[2]; for (int i = 0; i < 2; ++i) { w[i] = 1; for (int k = 0; k < n; ++k) w[i] = mulm(w[i], A[i], PR[i]); } eqres(pw, w[0], w[1], x + " to the " + c[2]); REQ(pw == "0" || isneg(pw) == (isneg(x) && n % 2), "sign of a power"); }
}
void search(Search& s) {
    for (int i = -30; i <= 30; ++i) for (int j = -30; j <= 30; ++j) { s.t({num(i), num(j), num((i * 7 + j) % 7)}); }
    for (int i : {-1001, -1000, -999, -101, -100, -99, 99, 100, 101, 199, 999, 1000, 1001}) for (int j : {-1001, -1000, -999, -100, -99, 0, 1, 99, 100, 101, 901, 999, 1000}) s.t({num(i), num(j), "3"});
    s.t({"12", "3", "-1"}); s.t({"0", "0", "-2147483648"});
    while (!s.timeup()) { std::string x = rnd_int(s), y = s.coin(8) ? x : s.coin(8) ? canon(isneg(x) ? absx(x) : "-" + x) : rnd_int(s);
        s.t({x, y, num(s.coin(6) ? -(long long)s.below(5) : (long long)s.below(x.size() > 30 ? 4 : 12))}); if (!s.thorough && orc::count > 9000) break; }
}
