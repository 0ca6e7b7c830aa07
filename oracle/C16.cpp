#include "Caitlyn/__Core/String.h"
#include "oracle.h"
using namespace Caitlyn;
// a case: pattern, text
void run_case(const Args& a) {
    const std::string &p = a[0], &t = a[1];
    bool want = p.empty();
    for (size_t i = 0; !want && i + p.size() <= t.size(); ++i) { size_t k = 0; while (k < p.size() && t[i + k] == p[k]) ++k; want = k == p.size(); }
    bool got = kmp(p, t);
    REQ(got == want, "kmp(" << show(p) << ", " << show(t) << ") is " << got << ", expected " << want);
}
void search(Search& s) {
    for (const char* al : {"a", "ab", "abc"}) {
        std::string A(al); std::vector<std::string> all{""};
        size_t from = 0, deep = A.size() == 1 ? 10 : A.size() == 2 ? 7 : 4;
        for (size_t d = 0; d < deep; ++d) { size_t to = all.size(); for (; from < to; ++from) for (char c : A) all.push_back(all[from] + c); }
        for (auto& p : all) for (auto& t : all) { s.t({p, t}); if (s.timeup()) return; }
    }
    std::string al = std::string("ab\0\x80\xFF", 5);
    while (!s.timeup()) {
        std::string A = s.coin() ? "ab" : s.coin() ? "a" : al, t = s.bytes(s.coin(4) ? 400 : 30, A), p;
        if (s.coin() && t.size()) { size_t i = s.below(t.size()); p = t.substr(i, 1 + s.below(s.coin(3) ? 200 : 12)); if (s.coin(3)) p[s.below(p.size())] = A[0]; if (s.coin(4)) p += p; }
        else p = s.bytes(12, A);
        if (s.coin(20)) p = s.dict_str();
        s.t({p, t});
        if (!s.thorough && orc::count > 60000) break;
    }
}
