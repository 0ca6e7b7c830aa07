#include <cstring>
#include <ios>
#include <iostream>
#include <stdexcept>
#include <string>
#include <vector>
#include "oracle.h"
#define private public
#include "Caitlyn/__Caitlyn/Application.h"
#undef private
using namespace Caitlyn;
// a case: a script of calls ("n" Initialise(), "a" Initialize(argc, argv)), then the arguments; the state is that of a program that has just started
void run_case(const Args& a) {
    delete Application::application_; Application::application_ = new Application(); Application::initialized_ = false;
    bool done = false; std::vector<std::string> kept;
    for (char c : a[0]) {
        const int argc = int(a.size()) - 1;
        std::vector<std::vector<char>> buf; std::vector<const char*> argv;
        for (size_t i = 1; i < a.size(); ++i) { buf.emplace_back(a[i].begin(), a[i].end()); buf.back().push_back('\0'); }
        for (auto& b : buf) argv.push_back(b.data());
        bool threw = false, other = false; const Application* r = nullptr;
        try { r = c == 'n' ? Application::Initialise() : Application::Initialize(argc, argc ? argv.data() : nullptr); } catch (const std::runtime_error&) { threw = true; } catch (...) { other = true; }
        REQ(!other, "threw something else"); REQ(threw == done, (c == 'n' ? "Initialise()" : "Initialize(argc, argv)") << (threw ? " was refused the first time" : " was accepted again") << " in " << a[0]);
        if (!threw) {
            REQ(r == Application::application_ && r, "returns another object");
            if (c == 'a') for (size_t i = 1; i < a.size(); ++i) kept.push_back(std::string(a[i].c_str()));
        }
        done = true;
        const Application* app = Application::application_;
        for (size_t i = 0; i < app->GetArgs().size(); ++i) for (size_t j = 0; j < argv.size(); ++j) REQ(app->GetArgs()[i] != argv[j], "argument " << i << " is not a copy");
        for (auto& b : buf) std::fill(b.begin(), b.end(), '#');
        buf.clear();
        REQ(app->GetArgs().size() == kept.size(), app->GetArgs().size() << " arguments instead of " << kept.size());
        for (size_t i = 0; i < kept.size(); ++i) REQ(kept[i] == app->GetArgs()[i], "argument " << i << " is \"" << app->GetArgs()[i] << "\" instead of \"" << kept[i] << "\"");
        REQ(std::string(app->GetSystemName()) == "Linux" && *app->GetCompilerInfo() && *app->GetCaitlynInfo(), "system, compiler or version");
    }
}
void search(Search& s) {
    for (const char* p : {"", "n", "a", "nn", "na", "an", "aa", "naa", "aan", "ana"}) { s.t({p}); s.t({p, "prog"}); s.t({p, "prog", "", "x y", "\xc3\xa4"}); }
    s.t({"a", std::string(5000, 'q'), "b"});
    while (!s.timeup()) {
        std::string p; for (size_t n = s.below(4) + 1; n; --n) p += s.coin() ? 'n' : 'a';
        Args a{p}; for (size_t n = s.below(s.below(8) ? 6 : 60); n; --n) { std::string w; for (size_t k = s.below(8) ? s.below(6) : s.below(300); k; --k) w += char(1 + s.below(255)); a.push_back(w); }
        s.t(a); if (!s.thorough && orc::count > 20000) break;
    }
}
