#include "Caitlyn/__Core/Utility.h"
#include "oracle.h"
using namespace Caitlyn;
typedef __int128 W;
static W wide(const std::string& s) { bool n = s[0] == '-'; W v = 0; for (size_t i = n; i < s.size(); ++i) v = v * 10 + (s[i] - '0'); return n ? -v : v; }
template <class T> static bool fits(W v) { return W(std::numeric_limits<T>::min()) <= v && v <= W(std::numeric_limits<T>::max()); }
template <class T, class U> static void pair(W x, W y, const char* tn, const char* un) {
    if (!fits<T>(x) || !fits<U>(y)) return;
    T t = T(x); U u = U(y);
    bool eq = cmp_eq(t, u), ne = cmp_ne(t, u), lt = cmp_less(t, u), gt = cmp_greater(t, u), le = cmp_le(t, u), ge = cmp_ge(t, u);
    REQ(eq == (x == y) && ne == (x != y) && lt == (x < y) && gt == (x > y) && le == (x <= y) && ge == (x >= y),
        tn << " and " << un << ": eq " << eq << " ne " << ne << " less " << lt << " greater " << gt << " le " << le << " ge " << ge);
}
#define EACH(M) M(signed char) M(short) M(int) M(long) M(long long) M(unsigned char) M(unsigned short) M(unsigned int) M(unsigned long) M(unsigned long long)
template <class T> static void row(W x, W y, const char* tn) {
#define M(U) pair<T, U>(x, y, tn, #U);
    EACH(M)
#undef M
}
// a case: two integers
void run_case(const Args& a) {
    W x = wide(a[0]), y = wide(a[1]);
#define M(T) row<T>(x, y, #T);
    M(signed char) M(short) M(int) M(long) M(long long) M(unsigned char) M(unsigned short) M(unsigned int) M(unsigned long) M(unsigned long long)
#undef M
}
static std::string str(W v) { if (v < 0) return "-" + str(-v); std::string r; do { r.insert(r.begin(), char('0' + int(v % 10))); v /= 10; } while (v); return r; }
void search(Search& s) {
    std::vector<W> vals{0, 1, 2, 3, 10, 100};
    for (int b : {7, 8, 15, 16, 31, 32, 63, 64}) for (int d = -2; d <= 2; ++d) vals.push_back((W(1) << b) + d);
    for (auto d : dict_ints) vals.push_back(W(d));
    size_t n = vals.size(); for (size_t i = 0; i < n; ++i) vals.push_back(-vals[i]);
    for (auto x : vals) for (auto y : vals) { s.t({str(x), str(y)}); if (s.timeup()) return; }
    while (!s.timeup()) {
        W x = W(int64_t(s.rng())) >> s.below(64), y = s.coin() ? x + W(s.below(5)) - 2 : W(uint64_t(s.rng())) >> s.below(64); if (s.coin()) y = s.coin() ? -y : x;
        s.t({str(x), str(y)}); if (!s.thorough && orc::count > 40000) break;
    }
}
