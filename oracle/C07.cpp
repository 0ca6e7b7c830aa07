#include "bigmodel.h"
// a case: kind, text
void run_case(const Args& a) {
    const std::string& x = a[1];
    if (a[0] == "text") {
        bool ok = numeral(x), threw = false; std::string t;
        try { BigInteger b(x.c_str()); t = good(b, "parsing"); } catch (const std::invalid_argument&) { threw = true; } catch (const std::runtime_error&) { threw = true; }
        REQ(threw == !ok, "parsing " << show(x) << (threw ? " was refused" : " was accepted"));
        bool threw2 = false; try { String s(x.c_str()); try { BigInteger b(s); REQ(txt(b) == t, "String and C text differ for " << show(x)); } catch (const std::invalid_argument&) { threw2 = true; } } catch (const std::logic_error&) { threw2 = true; } catch (const std::runtime_error&) { threw2 = true; }
        REQ(threw2 == !ok, "String " << show(x));
        if (!ok) return;
        REQ(t == canon(x), "parsing " << show(x) << " denotes " << t);
        BigInteger b(x.c_str()), c(t.c_str()); REQ(b == c && b.Equal(c) && !(b != c), "parsing the printed text " << t);
        std::ostringstream o; o << b; REQ(o.str() == t, "operator<< prints " << show(o.str()));
        REQ(txt(operator""_bigint(x.c_str(), x.size())) == t, "literal " << show(x));
        REQ(b.Size() == (t == "0" ? 0 : absx(t).size()), "Size of " << t);
    } else if (a[0] == "i64") { int64_t v = ival(x); BigInteger b(v); REQ(good(b, "int64") == std::to_string(v), "from int64 " << v); REQ(b == big(x), "equality " << v); }
    else { uint64_t v = strtoull(x.c_str(), nullptr, 10); BigInteger b(v); REQ(good(b, "uint64") == std::to_string(v), "from uint64 " << v); }
}
void search(Search& s) {
    std::string al = "0019+-";
    std::vector<std::string> all{""}; size_t from = 0;
    for (int d = 0; d < 5; ++d) { size_t to = all.size(); for (; from < to; ++from) for (char c : std::string("019+-/: ")) { all.push_back(all[from] + c); } if (all.size() > 40000) break; }
    for (auto& x : all) { s.t({"text", x}); if (s.timeup()) return; }
    BigInteger def; REQ(txt(def) == "0" && def == big("0") && def == big("-0"), "default BigInteger");
    for (int b = 0; b < 64; ++b) for (int d = -2; d <= 2; ++d) { s.t({"i64", std::to_string(int64_t((u64(1) << b) + u64(d)))}); s.t({"i64", std::to_string(int64_t(0 - ((u64(1) << b) + u64(d))))}); s.t({"u64", std::to_string((u64(1) << b) + u64(d))}); }
    while (!s.timeup()) {
        std::string x = rnd_int(s); if (s.coin(3)) x = (isneg(x) ? "-" : s.coin() ? "+" : "") + std::string(s.below(9), '0') + absx(x);
        if (s.coin(3)) { size_t i = s.below(x.size() + 1); static const std::vector<std::string> junk{"-", "+", " ", ".", "a", "\xD9\xA3", "\xEF\xBC\x91", "\xC2", "\n", "e"}; x.insert(i, s.pick(junk)); }
        s.t({"text", x}); if (s.coin(3)) { s.t({"i64", std::to_string(int64_t(s.rng()) >> s.below(64))}); s.t({"u64", std::to_string(s.rng() >> s.below(64))}); }
        if (!s.thorough && orc::count > 60000) break;
    }
}
