#include "strmodel.h"
static const size_t NP = String::NPosition;
static bool at(const M& t, const M& p, size_t i) { if (i + p.size() > t.size()) return false; for (size_t k = 0; k < p.size(); ++k) if (t[i + k] != p[k]) return false; return true; }
static bool pa(const Char& c) { return c.str() == "a"; }
static bool pw(const Char& c) { return c.size() > 1; }
void run_case(const Args& a) {
    M t = msplit(a[0]), p = msplit(a[1]); size_t pos = strtoull(a[2].c_str(), nullptr, 10);
    String S = mk(t), P = mk(p); const String& T = S;
    bool any = false; size_t f = NP, r = NP;
    for (size_t i = 0; i + p.size() <= t.size(); ++i) if (at(t, p, i)) { any = true; if (i >= pos && f == NP) f = i; if (i <= pos) r = i; }
    REQ(T.Find(P, pos) == f, "Find(" << showm(p) << ", " << pos << ") in " << showm(t) << " = " << (long long)T.Find(P, pos) << " instead of " << (long long)f);
    REQ(T.ReverseFind(P, pos) == r, "ReverseFind(" << showm(p) << ", " << pos << ") in " << showm(t) << " = " << (long long)T.ReverseFind(P, pos) << " instead of " << (long long)r);
    if (pos == 0) REQ(T.Find(P) == f, "Find without position");
    if (pos == NP) REQ(T.ReverseFind(P) == r, "ReverseFind without position");
    REQ(T.Contains(P) == any, "Contains(" << showm(p) << ") in " << showm(t));
    REQ(T.StartsWith(P) == at(t, p, 0), "StartsWith(" << showm(p) << ") on " << showm(t));
    REQ(T.EndsWith(P) == (p.size() <= t.size() && at(t, p, t.size() - p.size())), "EndsWith(" << showm(p) << ") on " << showm(t));
    for (auto pr : {pa, pw}) {
        size_t y = NP, n = NP;
        for (size_t i = pos; i < t.size() && pos <= t.size(); ++i) { bool v = pr(S.At(i)); if (v && y == NP) y = i; if (!v && n == NP) n = i; }
        REQ(T.FindIf(pr, pos) == y, "FindIf from " << pos << " in " << showm(t) << " = " << (long long)T.FindIf(pr, pos) << " instead of " << (long long)y);
        REQ(T.FindIfNot(pr, pos) == n, "FindIfNot from " << pos << " in " << showm(t) << " = " << (long long)T.FindIfNot(pr, pos) << " instead of " << (long long)n);
    }
    same(S, t, "the searched string"); same(P, p, "the pattern");
}
void search(Search& s) {
    auto n = [](size_t v) { return std::to_string(v); };
    std::vector<std::string> w{""};
    for (size_t i = 0; w[i].size() < (s.thorough ? 7u : 5u); ++i) { w.push_back(w[i] + "a"); w.push_back(w[i] + "b"); }
    std::vector<std::string> pw_{""};
    for (size_t i = 0; pw_[i].size() < 3; ++i) { pw_.push_back(pw_[i] + "a"); pw_.push_back(pw_[i] + "b"); }
    for (auto& t : w) for (auto& p : pw_) { for (size_t k = 0; k <= t.size() + 1; ++k) s.t({t, p, n(k)}); s.t({t, p, n(NP)}); if (s.timeup() && !s.thorough) return; }
    for (int i = 0; i < 30000 || (s.thorough && !s.timeup()); ++i) {
        if (s.timeup()) break;
        std::string t = rnd_text(s, s.below(s.coin(10) ? 80 : 12)); M m = msplit(t);
        std::string p;
        if (m.size() && s.coin()) { size_t b = s.below(m.size()), l = s.below(m.size() - b + 1); for (size_t k = b; k < b + l; ++k) p += m[k]; if (s.coin(4)) p += rnd_text(s, 1, 1); }
        else p = rnd_text(s, s.below(4));
        size_t k = s.coin(6) ? NP - s.below(3) : s.coin(8) ? s.rng() : s.below(m.size() + 3);
        s.t({t, p, n(k)});
    }
}
