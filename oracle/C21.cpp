#include "strmodel.h"
#include <Caitlyn/__Core/IO/Stream.h>
using namespace Caitlyn;
// a case: what the input holds, then operations: stream (o e l), verb (w W), kind, text.  For input: i, verb (l c), kind, text
static std::string conv(const std::string& t) { if (t == "!") throw std::runtime_error("no text"); return t == "#" ? std::string("a\0b\0", 4) : t; }
struct ViaStr { std::string t; std::string str() const { return conv(t); } };
struct ViaToS { std::string t; std::string to_string() const { return conv(t); } };
struct ViaCap { String t; String ToString() const { if (t == String("!")) throw std::runtime_error("no text"); return t; } };
template <class S> static void put(bool line, char k, const String& t) {
    switch (k) {
        case '0': if (line) S::WriteLine(); return;
        case 's': line ? S::WriteLine(t) : S::Write(t); return;
        case 'a': line ? S::WriteLine(ViaStr{t.str()}) : S::Write(ViaStr{t.str()}); return;
        case 'b': line ? S::WriteLine(ViaToS{t.str()}) : S::Write(ViaToS{t.str()}); return;
        case 'c': line ? S::WriteLine(ViaCap{t}) : S::Write(ViaCap{t}); return;
        case 'd': { Char c = t.NotEmpty() ? t[0] : Char('x'); line ? S::WriteLine(c) : S::Write(c); return; }
        case 'f': line ? S::WriteLine(t, t) : S::Write(t, t); return;
        default: line ? S::WriteLine(t, t, 42) : S::Write(t, t, 42);
    }
}
static std::string text_of(char k, const String& t) {      // throws what the stream would throw
    switch (k) {
        case '0': return "";
        case 's': return t.str();
        case 'a': case 'b': return conv(t.str());
        case 'c': if (t == String("!")) throw std::runtime_error("no text"); return t.str();
        case 'd': return t.NotEmpty() ? t[0].str() : "x";
        case 'f': return String::Format(t, t).str();
        default: return String::Format(t, t, 42).str();
    }
}
struct Redirect {
    std::ostringstream o, e, l; std::istringstream i; std::streambuf *bo, *be, *bl, *bi;
    explicit Redirect(const std::string& in) : i(in), bo(std::cout.rdbuf(o.rdbuf())), be(std::cerr.rdbuf(e.rdbuf())), bl(std::clog.rdbuf(l.rdbuf())), bi(std::cin.rdbuf(i.rdbuf())) { std::cin.clear(); }
    ~Redirect() { std::cout.rdbuf(bo); std::cerr.rdbuf(be); std::clog.rdbuf(bl); std::cin.rdbuf(bi); std::cin.clear(); std::cout.clear(); std::cerr.clear(); std::clog.clear(); }
};
void run_case(const Args& a) {
    std::string in = a[0], got[3], want[3]; size_t pos = 0; std::string err;
    {
        Redirect rd(in);
        for (size_t n = 1; n < a.size() && err.empty(); ++n) {
            char s = a[n][0], v = a[n][1], k = a[n][2]; String t(a[n].substr(3));
            bool wthrow = false, gthrow = false; std::string text;
            try { text = text_of(k, t); } catch (const std::exception&) { wthrow = true; }
            if (s != 'i') {
                int w = s == 'o' ? 0 : s == 'e' ? 1 : 2;
                if (!wthrow) want[w] += text + (v == 'W' ? "\n" : "");
                try { s == 'o' ? put<OutputStream>(v == 'W', k, t) : s == 'e' ? put<ErrorStream>(v == 'W', k, t) : put<LogStream>(v == 'W', k, t); } catch (const std::exception&) { gthrow = true; }
                if (gthrow != wthrow) err = "operation " + show(a[n]) + (gthrow ? " throws" : " does not throw");
            } else {
                std::string line; M m; String r; Char c;
                bool ok = !wthrow;
                if (ok) {
                    want[0] += text;
                    size_t e = in.find('\n', pos); if (e == std::string::npos) e = in.size();
                    line = in.substr(pos, e - pos); pos = e < in.size() ? e + 1 : e;
                    ok = split(line, m);
                }
                try {
                    if (v == 'l') r = k == '0' ? InputStream::ReadLine() : k == 's' ? InputStream::ReadLine(t) : k == 'f' ? InputStream::ReadLine(t, t) : InputStream::ReadLine(t, t, 42);
                    else c = k == '0' ? InputStream::ReadChar() : k == 's' ? InputStream::ReadChar(t) : k == 'f' ? InputStream::ReadChar(t, t) : InputStream::ReadChar(t, t, 42);
                } catch (const std::exception&) { gthrow = true; }
                if (gthrow == ok) err = "operation " + show(a[n]) + (gthrow ? " throws" : " does not throw") + " on the line " + show(line);
                else if (ok && v == 'l' && r.str() != line) err = "operation " + show(a[n]) + " gives " + show(r.str()) + " instead of " + show(line);
                else if (ok && v != 'l' && c.str() != (m.empty() ? "" : m[0])) err = "operation " + show(a[n]) + " gives " + show(c.str()) + " for the line " + show(line);
                size_t rest = size_t(rd.i.rdbuf()->in_avail() < 0 ? 0 : rd.i.rdbuf()->in_avail());
                if (err.empty() && rest != in.size() - pos) err = "operation " + show(a[n]) + " leaves " + num((long long)rest) + " bytes of input instead of " + num((long long)(in.size() - pos));
            }
            got[0] = rd.o.str(); got[1] = rd.e.str(); got[2] = rd.l.str();
            for (int w = 0; w < 3 && err.empty(); ++w)
                if (got[w] != want[w]) err = std::string(w == 0 ? "cout" : w == 1 ? "cerr" : "clog") + " holds " + show(got[w]) + " instead of " + show(want[w]) + " after " + show(a[n]);
        }
    }
    REQ(err.empty(), err);
}
void search(Search& s) {
    auto rnd = [&](const std::vector<std::string>& w) { return w[s.below(w.size())]; };
    const std::vector<std::string> T{"", "a", "!", "#", "{}", "{} {}", "{0", "é€", "\n", "a\nb", "{1}{0}", "\r\n", "%d", "{:>4}", std::string(300, 'q')}, L{"", "a", "é", "\xE2\x82\xAC x", "\xFF", "  a ", "\r", "abc\r", "{}", "\xC3", std::string(700, 'z')};
    for (auto& t : T) for (char st : {'o', 'e', 'l'}) for (char v : {'w', 'W'}) for (char k : {'0', 's', 'a', 'b', 'c', 'd', 'f', 'g'}) s.t({"x\n", std::string{st, v, k} + t, std::string{st, v, 's'} + "end"});
    for (auto& l : L) for (const char* e : {"", "\n", "\nsecond", "\n\nthird\n"}) for (char v : {'l', 'c'}) for (char k : {'0', 's', 'f', 'g'}) for (auto& t : {std::string("> "), std::string(""), std::string("{}")})
        s.t({l + e, std::string{'i', v, k} + t, "il0", "ic0", "ils?"});
    while (!s.timeup()) {
        if (!s.thorough && orc::count > 30000) break;
        std::string in; for (int i = int(s.below(5)); i > 0; --i) in += (s.coin() ? rnd(L) : rnd_text(s, s.below(9))) + "\n";
        if (s.coin()) in += rnd(L);
        Args a{in};
        for (int i = 1 + int(s.below(6)); i > 0; --i) {
            std::string t = s.coin() ? rnd(T) : rnd_text(s, s.below(9));
            if (s.coin()) a.push_back(std::string{'i', rnd({"l", "c"})[0], rnd({"0", "s", "f", "g"})[0]} + t);
            else a.push_back(std::string{rnd({"o", "e", "l"})[0], rnd({"w", "W"})[0], rnd({"0", "s", "a", "b", "c", "d", "f", "g"})[0]} + t);
        }
        s.t(a);
    }
}
