#include "strmodel.h"
#include <Caitlyn/__Core/File.h>
#include <memory>
#include <sys/stat.h>
using namespace Caitlyn;
// a case: the contents of the two files ("-": absent), then operations: object (0-3; objects 0, 1 are on file 0 and 2, 3 on file 1), operation, argument.
// wWaA + kind + text: the write forms; r: Read; l + delimiter: ReadLine; p + number: SetPosition; o c e: Open Close Erase; n + how: make the object again; b + name: names that cannot be opened
static std::string conv(const std::string& t) { if (t == "!") throw std::runtime_error("no text"); return t == "#" ? std::string("a\0b\0", 4) : t; }
struct ViaStr { std::string t; std::string str() const { return conv(t); } };
struct ViaToS { std::string t; std::string to_string() const { return conv(t); } };
struct ViaCap { String t; String ToString() const { if (t == String("!")) throw std::runtime_error("no text"); return t; } };
static void put(File& f, char v, char k, const String& t) {
#define PUT(...) (v == 'w' ? f.Write(__VA_ARGS__) : v == 'W' ? f.WriteLine(__VA_ARGS__) : v == 'a' ? f.Append(__VA_ARGS__) : f.AppendLine(__VA_ARGS__))
    switch (k) {
        case 'z': { Text z(t.str()); PUT(static_cast<const char*>(z)); return; }
        case 's': PUT(t); return;
        case 'a': PUT(ViaStr{t.str()}); return;
        case 'b': PUT(ViaToS{t.str()}); return;
        case 'c': PUT(ViaCap{t}); return;
        case 'd': { Char c = t.NotEmpty() ? t[0] : Char('x'); PUT(c); return; }
        case 'f': PUT(t, t); return;
        default: PUT(t, t, 42);
    }
}
static std::string text_of(char k, const String& t) {      // throws what the write would throw
    switch (k) {
        case 'z': case 's': return t.str();
        case 'a': case 'b': return conv(t.str());
        case 'c': if (t == String("!")) throw std::runtime_error("no text"); return t.str();
        case 'd': return t.NotEmpty() ? t[0].str() : "x";
        case 'f': return String::Format(t, t).str();
        default: return String::Format(t, t, 42).str();
    }
}
static std::string dir() {
    static std::string d;
    if (d.empty()) { char b[] = "/tmp/vp_C22_XXXXXX"; if (!mkdtemp(b)) throw Fail{"harness: no scratch directory"}; d = b; }
    return d;
}
static void store(const std::string& p, const std::string& c) { FILE* f = fopen(p.c_str(), "wb"); if (!f) fail("harness: cannot write"); fwrite(c.data(), 1, c.size(), f); fclose(f); }
static bool load(const std::string& p, std::string& c) { c.clear(); FILE* f = fopen(p.c_str(), "rb"); if (!f) return false; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) c.append(b, n); fclose(f); return true; }
struct Clean { std::string p[2]; ~Clean() { for (auto& x : p) unlink(x.c_str()); rmdir(dir().c_str()); } };
struct Obj { std::unique_ptr<File> f; bool open = false, eof = false; long long pos = 0; };
static std::string cut(const std::string& s) { return s.substr(0, s.find('\0')); }
#define ALIKE(threw, want, what) REQ((threw) == (want), "operation " << show(a[n]) << ((threw) ? " throws " : " does not throw ") << what)
void run_case(const Args& a) {
    std::string path[2], d = dir(); mkdir(d.c_str(), 0700);
    Clean cl; std::string disk[2]; bool there[2]; Obj o[4];
    for (int i = 0; i < 2; ++i) { path[i] = cl.p[i] = d + (i ? "/b \xC3\xA9" : "/a.txt"); there[i] = a[i] != "-"; if (there[i]) store(path[i], disk[i] = a[i]); }
    for (size_t n = 2; n < a.size(); ++n) {
        int k = a[n][0] - '0', w = k / 2; Obj& x = o[k]; char op = a[n][1]; std::string arg = a[n].substr(2);
        bool threw = false, failure = false; std::string what;
        auto guard = [&](const std::function<void()>& g) { try { g(); } catch (const std::ios_base::failure& e) { threw = failure = true; what = e.what(); } catch (const std::exception& e) { threw = true; what = e.what(); } };
        auto touch = [&] { there[w] = true; x.eof = x.open ? x.eof : false; x.open = true; };
        if (op == 'b') {
            guard([&] { if (arg[0] == 'e') { File g; String t; arg[1] == 'r' ? (void)g.Read() : arg[1] == 'l' ? (void)g.ReadLine() : arg[1] == 'w' ? g.Write("x") : arg[1] == 'a' ? g.AppendLine("x") : arg[1] == 'o' ? g.Open() : g.Erase(); }
                        else if (arg[0] == 'd') { File g{String(d)}; } else if (arg[0] == 'n') operator""_file((d + "/none/x").c_str(), 1); else if (arg[0] == 'z') operator""_file("", 0); else if (arg[0] == 'm') MakeFile(String(d + "/none/x")); else if (arg[0] == '0') { File g{String("")}; } else { File g{String(d + "/{}/x"), String("none")}; } });
            REQ(failure, "operation " << show(a[n]) << (threw ? " throws something else: " + what : " does not throw")); 
        } else if (op == 'n' || !x.f) {
            x.f.reset(); x.open = true; x.eof = false; x.pos = 0; String p(path[w]);
            guard([&] { File* g = arg == "f" ? new File(String(d + "/{}"), String(path[w].substr(d.size() + 1))) : arg == "c" && o[k ^ 1].f ? new File(*o[k ^ 1].f) : arg == "l" ? new File(operator""_file(path[w].c_str(), path[w].size())) : new File(p); x.f.reset(g); });
            ALIKE(threw, false, what); there[w] = true;
        } else if (std::strchr("wWaA", op)) {
            String t(arg.substr(1)); bool bad = false; std::string text;
            try { text = text_of(arg[0], t); } catch (const std::exception&) { bad = true; }
            guard([&] { put(*x.f, op, arg[0], t); }); touch();
            ALIKE(threw, bad, what);
            if (!bad) disk[w] += text + (op == 'W' || op == 'A' ? "\n" : "");
        } else if (op == 'r') {
            String r; M m; touch(); bool ok = split(cut(disk[w]), m);
            guard([&] { r = x.f->Read(); });
            ALIKE(threw, !ok, what << " on " << show(disk[w]));
            REQ(!ok || r.str() == cut(disk[w]), "operation " << show(a[n]) << " gives " << show(r.str()) << " for " << show(disk[w]));
        } else if (op == 'l') {
            char dl = arg.empty() ? '\n' : arg[0]; String r; M m; touch();
            const std::string& c = disk[w]; std::string line; bool end = true; long long len = (long long)c.size();
            if (x.pos < len) { size_t e = c.find(dl, size_t(x.pos)); end = e == std::string::npos; line = c.substr(size_t(x.pos), end ? e : e - size_t(x.pos)); x.pos = end ? len : (long long)e + 1; }
            x.eof = end; bool ok = split(cut(line), m);
            guard([&] { r = arg.empty() ? x.f->ReadLine() : x.f->ReadLine(dl); });
            ALIKE(threw, !ok, what << " on " << show(line));
            REQ(!ok || r.str() == cut(line), "operation " << show(a[n]) << " gives " << show(r.str()) << " instead of " << show(line) << " for " << show(c));
        } else if (op == 'p') {
            long long p = ival(arg); bool ok = x.open && p >= 0;
            guard([&] { x.f->SetPosition(p); });
            ALIKE(threw, !ok, what); REQ(failure == threw, "operation " << show(a[n]) << " throws " << what);
            if (ok) { x.pos = p; x.eof = false; }
        } else if (op == 'o') { guard([&] { x.f->Open(); }); ALIKE(threw, false, what); x.eof = false; x.open = true; there[w] = true;
        } else if (op == 'c') { guard([&] { x.f->Close(); }); ALIKE(threw, false, what); x.open = false;
        } else if (op == 'e') { guard([&] { x.f->Erase(); }); ALIKE(threw, false, what); disk[w].clear(); there[w] = true; x.open = true; x.eof = false; x.pos = 0; }
        for (int j = 0; j < 4; ++j) if (o[j].f) {
            REQ(o[j].f->GetPosition() == std::streampos(o[j].pos), "after " << show(a[n]) << " object " << j << " is at " << (long long)o[j].f->GetPosition() << " instead of " << o[j].pos);
            REQ(o[j].f->IsEof() == o[j].eof && bool(*o[j].f) == !o[j].eof, "after " << show(a[n]) << " object " << j << " says end " << o[j].f->IsEof() << "/" << !bool(*o[j].f));
        }
        for (int i = 0; i < 2; ++i) { std::string c; bool t = load(path[i], c); REQ(t == there[i] && c == disk[i], "after " << show(a[n]) << " file " << i << (t ? " holds " + show(c) : std::string(" is absent")) << " instead of " << (there[i] ? show(disk[i]) : std::string("being absent"))); }
    }
}
void search(Search& s) {
    auto rnd = [&](const std::vector<std::string>& w) { return w[s.below(w.size())]; };
    const std::vector<std::string> C{"-", "", "a", "one\ntwo\n", "one\ntwo", "\n", "\n\nx", "é€\n😀", "abc\r\ndef\r\n", "a,b,,c", std::string("a\0b\nc", 5), "\xFF\nok", "ok\n\xC3", std::string(9000, 'q') + "\nend", "  \n\t\n", std::string(300, 'l') + "\n" + std::string(5000, 'm')};
    const std::vector<std::string> T{"", "a", "!", "#", "{}", "{} {}", "{0", "é€", "\n", "a\nb", "{1}{0}", "\r\n", "%d", std::string(300, 'q')}, K{"z", "s", "a", "b", "c", "d", "f", "g"}, V{"w", "W", "a", "A"};
    for (auto& t : T) for (auto& v : V) for (auto& k : K) { s.t({"-", "-", "0n", "0" + v + k + t, "0r", "0wsend", "0l", "0l"}); s.t({"one\ntwo\n", "-", "0n", "0l", "0" + v + k + t, "0l", "0l", "0r"}); }
    for (auto& c : C) {
        for (auto& dl : {"", ",", "o", "\r"}) s.t({c, "-", "0n", std::string("0l") + dl, std::string("0l") + dl, std::string("0l") + dl, std::string("0l") + dl, "0r", "0wsx", std::string("0l") + dl, "0r"});
        for (auto& p : {"0", "1", "3", "5", "7", "9001", "-1", "100000"}) { s.t({c, "-", "0n", "0p" + std::string(p), "0l", "0l", "0wsx", "0r"}); s.t({c, "-", "0n", "0l", "0p" + std::string(p), "0r", "0l", "0c", "0p" + std::string(p), "0o", "0l"}); }
        s.t({c, "-", "0n", "0r", "0e", "0r", "0l", "0wsnew", "0l", "0p0", "0l", "0r"}); s.t({c, "-", "0n", "0l", "0e", "0wslonger than it", "0l"}); s.t({c, "-", "0n", "0o", "0wsx", "0r", "0o", "0l", "0o", "0l"}); s.t({c, "-", "0n", "0c", "0r", "0c", "0l", "0c", "0c", "0wsx", "0c", "0e", "0c", "0asx", "0c", "0r"});
        s.t({c, c, "0nl", "1nc", "2n", "3nc", "0l", "1l", "0wsx", "1r", "1e", "0l", "0r", "2l", "3wsy", "2l", "2r", "0n", "0l"});
    }
    for (auto& b : {"er", "el", "ew", "ea", "eo", "ee", "d", "m", "n", "z", "0", "f"}) s.t({"-", "-", "0b" + std::string(b), "0n", "0wsx"});
    for (size_t n : {4095u, 4096u, 8191u, 8192u, 32768u, 65535u, 65536u, 70001u, (1u << 20) - 1, 1u << 20, (1u << 20) + 5}) { std::string c(n, 'q'); c[n - 1] = 'e'; s.t({c, "-", "0n", "0r", "0wsx", "0r", "0l", "0l"}); c[n / 2] = '\n'; s.t({c, "-", "0n", "0l", "0l", "0l", "0r"}); }
    while (!s.timeup()) {
        if (!s.thorough && orc::count > 20000) break;
        auto content = [&] { std::string c = s.coin() ? rnd(C) : rnd_text(s, s.below(6)) + (s.coin() ? "\n" : ",") + rnd_text(s, s.below(6)); return c; };
        Args a{content(), content()};
        for (int i = 1 + int(s.below(14)); i > 0; --i) {
            std::string q(1, char('0' + (s.coin(3) ? s.below(4) : 0)));
            switch (s.below(12)) {
                case 0: case 1: case 2: a.push_back(q + rnd(V) + rnd(K) + (s.coin() ? rnd(T) : rnd_text(s, s.below(6)))); break;
                case 3: case 4: case 5: a.push_back(q + "l" + rnd({"", "", "", ",", "a", "\xA9"})); break;
                case 6: a.push_back(q + "p" + (s.coin() ? num((long long)s.below(12)) : rnd({"-1", "9001", "300", "8191", "8192", "-9223372036854775808"}))); break;
                case 7: a.push_back(q + rnd({"o", "c", "n", "nf", "nc", "nl"})); break;
                case 8: a.push_back(q + (s.coin() ? "e" : "o")); break;
                case 9: a.push_back(q + "c"); break;
                default: a.push_back(q + "r");
            }
        }
        s.t(a);
    }
}
