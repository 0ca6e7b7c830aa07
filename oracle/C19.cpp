#include "Caitlyn/__Core/Memory.h"
#include "oracle.h"
#include <memory>
#include <new>
using namespace Caitlyn;
// a case is a history: every argument is one operation, its name and the numbers of the slots it works on.
// The model keeps, for every slot, the object it owns; objects may own others, and are alive while something reachable owns them.
static long long blocks = 0;
void* operator new(std::size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); ++blocks; return p; }
void operator delete(void* p) noexcept { if (p) --blocks; free(p); }
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
static const int MAXID = 4096;
static int deleted[MAXID], made = 0; static bool twice = false;
struct Obj {
    int id; unsigned tag; SharedPtr<Obj> next; UniquePtr<Obj> mine;
    Obj() : id(made++), tag(0xA11CE) {}
    ~Obj() { if (tag != 0xA11CE || deleted[id]++) twice = true; tag = 0; }
};
static const int NS = 5, NU = 4, NW = 3;
struct World {
    SharedPtr<Obj>* s[NS]; UniquePtr<Obj>* u[NU]; Ptr<Obj> raw; WeakPtr<Obj>* k[NW]; int mk[NW];      // a WeakPtr holds a SharedPtr, so it owns too
    int ms[NS], mu[NU], mraw; Obj* at[MAXID]; int nx[MAXID], mi[MAXID]; std::set<int> loose;
    Obj* fresh() { Obj* o = new Obj; at[o->id] = o; nx[o->id] = mi[o->id] = -1; return o; }
};
static void mark(const World& w, int i, std::set<int>& live) { if (i >= 0 && live.insert(i).second) { mark(w, w.nx[i], live); mark(w, w.mi[i], live); } }
static std::set<int> alive(const World& w) {
    std::set<int> r; for (int x : w.ms) mark(w, x, r); for (int x : w.mu) mark(w, x, r); for (int x : w.mk) mark(w, x, r); for (int x : w.loose) mark(w, x, r); return r;
}
static const Args* ga; static size_t gn;
static std::string where() { const Args& a = *ga; size_t n = gn; std::string r = " after"; for (size_t i = 0; i <= n && i < a.size(); ++i) r += " " + a[i]; return r; }
template <class P> static void look(const P& p, Obj* want) {
    REQ(p.Get() == want, "Get() is not the address held" << where()); REQ((p == nullptr) == (want == nullptr) && (p != nullptr) == (want != nullptr), "comparison with nullptr is wrong" << where());
    if (want) { REQ(&*p == want && p.operator->() == want && p->id == want->id, "dereferencing does not give the object" << where()); return; }
    static unsigned turn = 0; if (++turn % 13 && gn) return;      // exceptions are slow
    int k = 0; try { (void)*p; } catch (const std::runtime_error&) { k = 1; } catch (...) {} REQ(k == 1, "*null did not throw std::runtime_error" << where());
    k = 0; try { (void)p.operator->(); } catch (const std::runtime_error&) { k = 1; } catch (...) {} REQ(k == 1, "null-> did not throw std::runtime_error" << where());
}
static void check(World& w) {
    REQ(!twice, "an object was deleted twice" << where());
    std::set<int> l = alive(w);
    for (int i = 0; i < made; ++i) REQ(bool(deleted[i]) == !l.count(i), "object " << i << (deleted[i] ? " was deleted although it has an owner" : " was not deleted when its last owner let go") << where());
    auto o = [&](int i) { return i < 0 ? nullptr : w.at[i]; };
    for (int i = 0; i < NS; ++i) { look(*w.s[i], o(w.ms[i])); for (int j = 0; j < NS; ++j) REQ((*w.s[i] == *w.s[j]) == (w.ms[i] == w.ms[j]) && (*w.s[i] != *w.s[j]) == (w.ms[i] != w.ms[j]), "equality of SharedPtrs is not that of their addresses" << where()); }
    for (int i = 0; i < NU; ++i) { look(*w.u[i], o(w.mu[i])); for (int j = 0; j < NU; ++j) REQ((*w.u[i] == *w.u[j]) == (w.mu[i] == w.mu[j]) && (*w.u[i] != *w.u[j]) == (w.mu[i] != w.mu[j]), "equality of UniquePtrs is not that of their addresses" << where()); }
    for (int i = 0; i < NW; ++i) {
        const WeakPtr<Obj>& p = *w.k[i]; Obj* want = o(w.mk[i]);
        REQ(p.expired() == !want && (p == nullptr) == !want && (p != nullptr) == (want != nullptr) && p.lock().Get() == want, "a WeakPtr does not know what it holds" << where());
        for (int j = 0; j < NW; ++j) REQ((p == *w.k[j]) == (w.mk[i] == w.mk[j]) && (p != *w.k[j]) == (w.mk[i] != w.mk[j]), "equality of WeakPtrs is not that of their addresses" << where());
        if (want) REQ(&*p == want && p.operator->() == want, "dereferencing a WeakPtr does not give the object" << where());
        else { static unsigned turn = 0; if (++turn % 13 && gn) continue; int k = 0; try { (void)*p; } catch (const std::runtime_error&) { k = 1; } catch (...) {} try { (void)p.operator->(); } catch (const std::runtime_error&) { k += 2; } catch (...) {} REQ(k == 3, "dereferencing a null WeakPtr did not throw std::runtime_error" << where()); }
    }
    look(w.raw, o(w.mraw)); Ptr<Obj> c(w.raw), e; look(c, o(w.mraw)); e = w.raw; look(e, o(w.mraw)); REQ(c == w.raw && !(c != w.raw) && (e == Ptr<Obj>()) == (w.mraw < 0), "equality of Ptrs is not that of their addresses" << where());
    REQ(!twice, "using a Ptr deleted an object" << where());
    for (int i : l) { Obj* p = w.at[i]; REQ(p->next.Get() == o(w.nx[i]) && p->mine.Get() == o(w.mi[i]), "a smart pointer inside an object changed" << where()); }
}
static void step(World& w, const std::string& op) {
    char c = op[0]; int a = op.size() > 1 ? op[1] - '0' : 0, b = op.size() > 2 ? op[2] - '0' : 0; a = a < 0 ? 0 : a; b = b < 0 ? 0 : b;
    int i = a % NS, j = b % NS, k = a % NU, l = b % NU;
    bool sn = w.ms[i] >= 0, un = w.mu[k] >= 0;
    if (made > MAXID - 4) return;
    switch (c) {
    case 'n': { Obj* o = w.fresh(); *w.s[i] = o; w.ms[i] = o->id; break; }
    case 'N': { Obj* o = w.fresh(); w.s[i]->Reset(o); w.ms[i] = o->id; break; }
    case 'p': { Obj* o = w.fresh(); delete w.s[i]; w.s[i] = new SharedPtr<Obj>(o); w.ms[i] = o->id; break; }
    case 'c': *w.s[i] = *w.s[j]; w.ms[i] = w.ms[j]; break;
    case 'm': *w.s[i] = std::move(*w.s[j]); if (i != j) { w.ms[i] = w.ms[j]; w.ms[j] = -1; } break;
    case 'C': { auto* x = new SharedPtr<Obj>(*w.s[j]); delete w.s[i]; w.s[i] = x; w.ms[i] = w.ms[j]; break; }
    case 'M': { auto* x = new SharedPtr<Obj>(std::move(*w.s[j])); if (i != j) { delete w.s[i]; w.s[i] = x; w.ms[i] = w.ms[j]; w.ms[j] = -1; } else { delete w.s[i]; w.s[i] = x; } break; }
    case 'r': w.s[i]->Reset(); w.ms[i] = -1; break;
    case 's': w.s[i]->Reset(w.s[i]->Get()); break;
    case 'z': delete w.s[i]; w.s[i] = new SharedPtr<Obj>(); w.ms[i] = -1; break;
    case '0': *w.s[i] = (Obj*)nullptr; w.ms[i] = -1; break;
    case 'Z': delete w.s[i]; w.s[i] = new SharedPtr<Obj>((Obj*)nullptr); w.ms[i] = -1; break;
    case 'k': { Obj* o = w.fresh(); o->next = *w.s[j]; w.nx[o->id] = w.ms[j]; *w.s[i] = o; w.ms[i] = o->id; break; }      // a list grows
    case 'h': if (sn) { int x = w.nx[w.ms[i]]; *w.s[i] = (*w.s[i])->next; w.ms[i] = x; } break;                                    // and is walked
    case 'g': if (sn) { int x = w.ms[i], y = w.nx[x]; *w.s[i] = std::move((*w.s[i])->next); w.nx[x] = -1; w.ms[i] = y; } break;
    case 'f': { SharedPtr<Obj> t(*w.s[i]); { SharedPtr<Obj> t2 = t; t = t2; } *w.s[i] = std::move(t); break; }
    case 'R': { w.s[i]->Reset(w.u[l]->Release()); if (w.mu[l] >= 0 || w.ms[i] >= 0) w.ms[i] = w.mu[l]; w.mu[l] = -1; break; }        // from unique to shared
    case 'U': { Obj* o = w.fresh(); *w.u[k] = o; w.mu[k] = o->id; break; }
    case 'V': { Obj* o = w.fresh(); w.u[k]->Reset(o); w.mu[k] = o->id; break; }
    case 'P': { Obj* o = w.fresh(); delete w.u[k]; w.u[k] = new UniquePtr<Obj>(o); w.mu[k] = o->id; break; }
    case 'v': *w.u[k] = std::move(*w.u[l]); if (k != l) { w.mu[k] = w.mu[l]; w.mu[l] = -1; } break;
    case 'w': { auto* x = new UniquePtr<Obj>(std::move(*w.u[l])); int y = w.mu[l]; w.mu[l] = -1; delete w.u[k]; w.u[k] = x; w.mu[k] = y; break; }
    case 'x': w.u[k]->Reset(); w.mu[k] = -1; break;
    case 'y': w.u[k]->Reset(w.u[k]->Get()); break;
    case 'X': delete w.u[k]; w.u[k] = new UniquePtr<Obj>(); w.mu[k] = -1; break;
    case 'l': { Obj* o = w.u[k]->Release(); REQ(o == (un ? w.at[w.mu[k]] : nullptr), "Release did not return the object"); if (un) w.loose.insert(w.mu[k]); w.mu[k] = -1; break; }
    case 'a': if (!w.loose.empty()) { int x = *w.loose.begin(); if (x != w.mraw) { w.loose.erase(x); w.u[k]->Reset(w.at[x]); w.mu[k] = x; } } break;
    case 'K': { Obj* o = w.fresh(); o->mine = std::move(*w.u[l]); w.mi[o->id] = w.mu[l]; w.mu[l] = -1; *w.u[k] = o; w.mu[k] = o->id; break; }
    case 'H': if (un) { int x = w.mu[k], y = w.mi[x]; *w.u[k] = std::move((*w.u[k])->mine); w.mi[x] = -1; w.mu[k] = y; } break;
    case 'D': if (w.mraw >= 0) { w.raw.Destroy(); w.loose.erase(w.mraw); w.mraw = -1; } else w.raw.Destroy(); break;
    case 'E': { Obj* o = w.fresh(); w.loose.insert(o->id); if (w.mraw >= 0) w.loose.erase(w.mraw); w.raw.Reset(o); w.mraw = o->id; break; }
    case 'e': if (w.mraw >= 0) w.loose.erase(w.mraw); w.raw.Reset(); w.mraw = -1; break;
    case 'Q': w.raw = (Obj*)nullptr; w.mraw = -1; break;
    case 'q': { Obj* o = w.fresh(); w.loose.insert(o->id); w.raw = o; w.mraw = o->id; break; }
    case '1': *w.k[a % NW] = *w.k[b % NW]; w.mk[a % NW] = w.mk[b % NW]; break;
    case '2': *w.k[a % NW] = std::move(*w.k[b % NW]); if (a % NW != b % NW) { w.mk[a % NW] = w.mk[b % NW]; w.mk[b % NW] = -1; } break;
    case '3': *w.k[a % NW] = *w.s[j]; w.mk[a % NW] = w.ms[j]; break;
    case '4': { auto* x = new WeakPtr<Obj>(*w.k[b % NW]); delete w.k[a % NW]; w.k[a % NW] = x; w.mk[a % NW] = w.mk[b % NW]; break; }
    case '5': { auto* x = new WeakPtr<Obj>(std::move(*w.k[b % NW])); int y = w.mk[b % NW]; w.mk[b % NW] = -1; delete w.k[a % NW]; w.k[a % NW] = x; w.mk[a % NW] = y; break; }
    case '6': { auto* x = new WeakPtr<Obj>(*w.s[j]); delete w.k[a % NW]; w.k[a % NW] = x; w.mk[a % NW] = w.ms[j]; break; }
    case '7': delete w.k[a % NW]; w.k[a % NW] = new WeakPtr<Obj>(); w.mk[a % NW] = -1; break;
    case '8': *w.s[i] = w.k[b % NW]->lock(); w.ms[i] = w.mk[b % NW]; break;
    default: break;
    }
}
void run_case(const Args& a) {
    ga = &a; gn = 0; made = 0; twice = false; memset(deleted, 0, sizeof deleted);
    std::unique_ptr<World> w(new World);
    long long before = blocks;
    for (int i = 0; i < NW; ++i) { w->k[i] = new WeakPtr<Obj>(); w->mk[i] = -1; }
    for (int i = 0; i < NS; ++i) { w->s[i] = new SharedPtr<Obj>(); w->ms[i] = -1; } for (int i = 0; i < NU; ++i) { w->u[i] = new UniquePtr<Obj>(); w->mu[i] = -1; } w->mraw = -1;
    for (size_t n = 0; n < a.size(); ++n) { if (a[n].empty()) continue; step(*w, a[n]); gn = n; check(*w); }
    gn = a.size();
    for (int i = 0; i < NS; ++i) { delete w->s[i]; w->s[i] = new SharedPtr<Obj>(); w->ms[i] = -1; check(*w); }
    for (int i = 0; i < NU; ++i) { delete w->u[i]; w->u[i] = new UniquePtr<Obj>(); w->mu[i] = -1; check(*w); }
    for (int i = 0; i < NW; ++i) { delete w->k[i]; w->k[i] = new WeakPtr<Obj>(); w->mk[i] = -1; check(*w); }
    std::set<int> rest(w->loose); w->loose.clear(); for (int i : rest) delete w->at[i];
    for (auto* p : w->s) delete p; for (auto* p : w->u) delete p; for (auto* p : w->k) delete p;
    REQ(!twice, "an object was deleted twice" << where()); for (int i = 0; i < made; ++i) REQ(deleted[i] == 1, "object " << i << " was deleted " << deleted[i] << " times" << where());
    rest.clear();
    REQ(blocks == before, blocks - before << " blocks of memory were left behind" << where());
}
void search(Search& s) {
    const std::string ops = "nNpcmCMrsz0ZkhgfRUVPvwxyXlaKHDEeQq12345678";
    auto op = [&](size_t k) { return std::string(1, ops[k]) + char('0' + s.below(20)) + char('0' + s.below(20)); };
    auto few = [&](size_t k) { return std::string(1, ops[k]) + char('0' + s.below(2)) + char('0' + s.below(2)); };
    s.t({});
    for (char c : ops) for (int i = 0; i < 2; ++i) { s.t({std::string(1, c) + "0" + char('0' + i)}); for (char d : ops) s.t({std::string(1, d) + "10", std::string(1, c) + "0" + char('0' + i), std::string(1, d) + "00"}); }
    s.t({"n0", "k00", "k00", "h0", "h0", "h0"}); s.t({"n0", "k00", "k00", "g0", "g0"}); s.t({"n0", "k00", "c10", "h0", "r1"}); s.t({"n0", "k10", "c21", "g1"});
    s.t({"U0", "K00", "K00", "H0", "H0", "H0"}); s.t({"U0", "l0", "a1", "R01", "c10", "z0"});
    while (!s.timeup()) {
        Args a; bool small = s.coin(); for (size_t n = 2 + s.below(s.thorough ? 60 : 14); n; --n) a.push_back(small ? few(s.below(ops.size())) : op(s.below(ops.size())));
        s.t(a);
    }
}
