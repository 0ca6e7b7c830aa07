// Real threads on the real SharedPtr. std::atomic is replaced by a class that does the same and, around it, lets another thread
// run (the case says which one, so a schedule can be replayed) and keeps track of what happens before what (C++11 rules).
#include <atomic>
#include <memory>
#include <new>
#include <mutex>
#include <condition_variable>
#include <thread>
#include <scoped_allocator>
#if __cplusplus >= 201703L
#include <memory_resource>
#endif
#include "oracle.h"
typedef std::atomic<int> RInt; typedef std::atomic<long long> RLong; typedef std::memory_order Ord;
static inline void real_fence(Ord o) { std::atomic_thread_fence(o); }
static const int MAXT = 5;                                   // thread 0 is the one that starts and joins the others
struct Clock { long long v[MAXT]; Clock() { memset(v, 0, sizeof v); } void join(const Clock& o) { for (int i = 0; i < MAXT; ++i) v[i] = std::max(v[i], o.v[i]); } bool leq(const Clock& o) const { for (int i = 0; i < MAXT; ++i) if (v[i] > o.v[i]) return false; return true; } };
static thread_local int me = 0;
static Clock now[MAXT], pend[MAXT], relf[MAXT];
static bool sched = false; static RInt bad(0), atomics(0); static std::mutex badm; static std::string badmsg;
static void say(const std::string& m) { std::lock_guard<std::mutex> l(badm); if (!bad) { badmsg = m; bad = 1; } }
struct Stop {};
// ---- one thread at a time, in the order the case says
static std::mutex bm; static std::condition_variable bcv[MAXT]; static int turn = 0; static bool run_[MAXT]; static std::string plan; static size_t at_ = 0;
static int choose(bool leaving) {
    int n = 0, who[MAXT]; for (int i = 1; i < MAXT; ++i) if (run_[i] && !(leaving && i == me)) who[n++] = i;
    if (!n) return 0;
    char d = plan.empty() ? '.' : plan[at_++ % plan.size()];
    if (d == '.' || d < '0' || d > '9') { if (!leaving) return me; d = '0'; }
    return who[(d - '0') % n];
}
static void hand(int to, bool leaving) {
    std::unique_lock<std::mutex> l(bm); if (leaving) run_[me] = false; if (to == me) return;
    turn = to; bcv[to].notify_one(); if (!leaving) bcv[me].wait(l, [] { return turn == me; });
}
static thread_local unsigned lcg = 1;
static void point() {
    if (me == 0) return;
    if (sched) { hand(choose(false), false); return; }
    lcg = lcg * 1103515245u + 12345u; if (((lcg >> 16) & 7) == 0) for (volatile int i = int((lcg >> 20) & 63); i > 0; i = i - 1) {}
}
namespace std {
template <class T> class vp_atomic : public std::atomic<T> {
    typedef std::atomic<T> B; mutable Clock sync, used;
    static bool isacq(Ord o) { return o == memory_order_acquire || o == memory_order_acq_rel || o == memory_order_seq_cst || o == memory_order_consume; }
    static bool isrel(Ord o) { return o == memory_order_release || o == memory_order_acq_rel || o == memory_order_seq_cst; }
    void tick() const { if (sched) { ++::atomics; used.v[::me] = ++now[::me].v[::me]; } }
    void rd(Ord o) const { if (!sched) return; pend[::me].join(sync); if (isacq(o)) now[::me].join(sync); }
    void wr(Ord o, bool rmw) const { if (!sched) return; Clock c; if (rmw) c = sync; if (isrel(o)) c.join(now[::me]); c.join(relf[::me]); sync = c; }
    struct In { In() { point(); } };
    static Ord fail_of(Ord o) { return o == memory_order_acq_rel ? memory_order_acquire : o == memory_order_release ? memory_order_relaxed : o; }
public:
    vp_atomic() noexcept : B() { start(); }
    vp_atomic(T v) noexcept : B(v) { start(); }
    vp_atomic(const vp_atomic&) = delete; vp_atomic& operator=(const vp_atomic&) = delete;
    void start() { if (sched) used.v[::me] = ++now[::me].v[::me]; }
    ~vp_atomic() { if (sched && !used.leq(now[::me])) say("a reference count was deleted without ordering after another thread's use of it (data race)"); }
    T load(Ord o = memory_order_seq_cst) const noexcept { In i; tick(); T r = B::load(o); rd(o); return r; }
    void store(T v, Ord o = memory_order_seq_cst) noexcept { In i; tick(); B::store(v, o); wr(o, false); }
    T exchange(T v, Ord o = memory_order_seq_cst) noexcept { In i; tick(); T r = B::exchange(v, o); rd(o); wr(o, true); return r; }
    bool compare_exchange_strong(T& e, T v, Ord s, Ord f) noexcept { In i; tick(); bool r = B::compare_exchange_strong(e, v, s, f); rd(r ? s : f); if (r) wr(s, true); return r; }
    bool compare_exchange_weak(T& e, T v, Ord s, Ord f) noexcept { return compare_exchange_strong(e, v, s, f); }
    bool compare_exchange_strong(T& e, T v, Ord o = memory_order_seq_cst) noexcept { return compare_exchange_strong(e, v, o, fail_of(o)); }
    bool compare_exchange_weak(T& e, T v, Ord o = memory_order_seq_cst) noexcept { return compare_exchange_strong(e, v, o, fail_of(o)); }
    T fetch_add(T v, Ord o = memory_order_seq_cst) noexcept { In i; tick(); T r = B::fetch_add(v, o); rd(o); wr(o, true); return r; }
    T fetch_sub(T v, Ord o = memory_order_seq_cst) noexcept { In i; tick(); T r = B::fetch_sub(v, o); rd(o); wr(o, true); return r; }
    T operator++() noexcept { return fetch_add(1) + 1; } T operator++(int) noexcept { return fetch_add(1); }
    T operator--() noexcept { return fetch_sub(1) - 1; } T operator--(int) noexcept { return fetch_sub(1); }
    T operator+=(T v) noexcept { return fetch_add(v) + v; } T operator-=(T v) noexcept { return fetch_sub(v) - v; }
    T operator=(T v) noexcept { store(v); return v; } operator T() const noexcept { return load(); }
};
template <class T> T atomic_load(const vp_atomic<T>* a) { return a->load(); } template <class T> T atomic_load_explicit(const vp_atomic<T>* a, Ord o) { return a->load(o); }
template <class T> void atomic_store(vp_atomic<T>* a, T v) { a->store(v); } template <class T> void atomic_store_explicit(vp_atomic<T>* a, T v, Ord o) { a->store(v, o); }
template <class T, class U> T atomic_fetch_add(vp_atomic<T>* a, U v) { return a->fetch_add(T(v)); } template <class T, class U> T atomic_fetch_add_explicit(vp_atomic<T>* a, U v, Ord o) { return a->fetch_add(T(v), o); }
template <class T, class U> T atomic_fetch_sub(vp_atomic<T>* a, U v) { return a->fetch_sub(T(v)); } template <class T, class U> T atomic_fetch_sub_explicit(vp_atomic<T>* a, U v, Ord o) { return a->fetch_sub(T(v), o); }
inline void vp_fence(Ord o) {
    point(); real_fence(o); if (!sched) return; ++::atomics;
    if (o == memory_order_acquire || o == memory_order_acq_rel || o == memory_order_seq_cst || o == memory_order_consume) now[::me].join(pend[::me]);
    if (o == memory_order_release || o == memory_order_acq_rel || o == memory_order_seq_cst) relf[::me] = now[::me];
}
typedef vp_atomic<std::size_t> vp_atomic_size_t; typedef vp_atomic<int> vp_atomic_int; typedef vp_atomic<unsigned> vp_atomic_uint; typedef vp_atomic<long> vp_atomic_long; typedef vp_atomic<unsigned long> vp_atomic_ulong;
}
#define atomic vp_atomic
#define atomic_size_t vp_atomic_size_t
#define atomic_int vp_atomic_int
#define atomic_uint vp_atomic_uint
#define atomic_long vp_atomic_long
#define atomic_ulong vp_atomic_ulong
#define atomic_thread_fence vp_fence
#include "Caitlyn/__Core/Memory.h"
#undef atomic
using namespace Caitlyn;
static RLong blocks(0);
void* operator new(std::size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); ++blocks; return p; }
void operator delete(void* p) noexcept { if (p) --blocks; free(p); }
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
static const int MAXID = 1 << 15;
static RInt gone[MAXID], made(0);
struct Obj {
    int id; Clock used; SharedPtr<Obj> next; unsigned tag;
    Obj() : id(made++ % MAXID), tag(0xA11CE) { if (sched) used.v[me] = ++now[me].v[me]; }
    ~Obj() {
        point();
        if (gone[id].fetch_add(1) || tag != 0xA11CE) say("an object was deleted twice");
        if (sched && ::atomics && !used.leq(now[me])) say("an object was deleted without ordering after another thread's access to it (data race)");
        tag = 0;
    }
    void use() { point(); if (gone[id].load() || tag != 0xA11CE) say("an object was deleted although it has an owner"); if (sched) used.v[me] = ++now[me].v[me]; }
};
typedef SharedPtr<Obj> P;
static const int NS = 3, NP = 2;
static P* pool[NP]; static int poolid[NP];
struct Box { std::mutex m; P* p; Clock c; };
static Box box[MAXT];
struct Me { P* s[NS]; int id[NS]; };                          // what the slots should hold: the id of the object or -1
static void look(const P& p, int id) {
    if (bad) throw Stop();
    if ((p.Get() == nullptr) != (id < 0) || (p == nullptr) != (id < 0)) { say("a SharedPtr does not hold what its thread put there"); throw Stop(); }
    if (id >= 0) { p->use(); if (bad) throw Stop(); if ((*p).id != id) { say("a SharedPtr refers to another object than its thread put there"); throw Stop(); } }
}
static int idof(const P& p) { return p.Get() ? p->id : -1; }
static void step(Me& w, const char* o, int nt) {
    int x = (o[1] - '0') % NS, y = (o[2] - '0') % NS, q = (o[2] - '0') % NP; if (x < 0 || y < 0 || q < 0) return;
    P*& a = w.s[x];
    switch (o[0]) {
    case 'c': *a = *w.s[y]; w.id[x] = w.id[y]; break;
    case 'C': { P* t = new P(*w.s[y]); delete a; a = t; w.id[x] = w.id[y]; break; }
    case 'm': if (x != y) { *a = std::move(*w.s[y]); w.id[x] = w.id[y]; w.id[y] = -1; } break;
    case 'M': if (x != y) { P* t = new P(std::move(*w.s[y])); delete a; a = t; w.id[x] = w.id[y]; w.id[y] = -1; } break;
    case 'b': *a = *pool[q]; w.id[x] = poolid[q]; break;
    case 'B': { P* t = new P(*pool[q]); delete a; a = t; w.id[x] = poolid[q]; break; }
    case 'p': { P t(*pool[q]); look(t, poolid[q]); P u(t); look(u, poolid[q]); break; }
    case 'f': { P t(*a); { P u = t; look(u, w.id[x]); } break; }
    case 'r': a->Reset(); w.id[x] = -1; break;
    case '0': *a = (Obj*)nullptr; w.id[x] = -1; break;
    case 'z': delete a; a = new P(); w.id[x] = -1; break;
    case 's': a->Reset(a->Get()); break;
    case 'n': { Obj* n = new Obj; int i = n->id; *a = n; w.id[x] = i; break; }
    case 'N': { Obj* n = new Obj; int i = n->id; a->Reset(n); w.id[x] = i; break; }
    case 'Q': { Obj* n = new Obj; int i = n->id; delete a; a = new P(n); w.id[x] = i; break; }
    case 'k': { Obj* n = new Obj; int i = n->id; n->next = *w.s[y]; *a = n; w.id[x] = i; break; }
    case 'h': if (w.id[x] >= 0) { int i = idof((*a)->next); *a = (*a)->next; w.id[x] = i; } break;
    case 'u': look(*a, w.id[x]); break;
    case 'U': look(*pool[q], poolid[q]); break;
    case 'g': { Box& b = box[1 + (o[2] - '0') % (nt - 1)]; P* t = nullptr; { std::lock_guard<std::mutex> l(b.m); if (!b.p) { b.p = a; if (sched) { ++now[me].v[me]; b.c.join(now[me]); } } else t = a; } if (!t) { a = new P(); w.id[x] = -1; } break; }
    case 't': { Box& b = box[me]; P* t = nullptr; { std::lock_guard<std::mutex> l(b.m); t = b.p; b.p = nullptr; if (sched) now[me].join(b.c); } if (t) { delete a; a = t; w.id[x] = idof(*t); } break; }
    default: break;
    }
}
static void body(int t, const std::string* ops, int reps, Me* w, int nt) {
    me = t; lcg = 77u * unsigned(t) + 5u;
    if (sched) { std::unique_lock<std::mutex> l(bm); bcv[t].wait(l, [t] { return turn == t; }); }
    try {
        for (int r = 0; r < reps && !bad; ++r)
            for (size_t i = 0; i + 2 < ops->size(); i += 3) { if (bad) throw Stop(); point(); step(*w, ops->c_str() + i, nt); }
        for (int i = 0; i < NS; ++i) look(*w->s[i], w->id[i]);
        for (int i = 0; i < NS; ++i) { delete w->s[i]; w->s[i] = nullptr; if (bad) throw Stop(); }
    } catch (const Stop&) {} catch (const std::exception& e) { say(std::string("unexpected exception ") + e.what()); }
    if (sched) hand(choose(true), true);
}
// a case: the schedule (F: all at once, and how many thousand rounds), what every thread owns at first, the operations of every thread
static void once(const Args& a) {
    int nt = 1; const std::string none; if (a.size() < 3) return;
    nt = std::min<int>(MAXT, int(a.size()) - 1); if (nt < 2) return;
    bool free_ = !a[0].empty() && a[0][0] == 'F';
    int reps = free_ ? std::max(1, atoi(a[0].c_str() + 1)) : 1;
    for (int i = 0; i < MAXT; ++i) now[i] = pend[i] = relf[i] = Clock();
    me = 0; bad = 0; atomics = 0; for (int i = 0; i < made && i < MAXID; ++i) gone[i] = 0; made = 0;
    if (free_) { int news = 4; for (size_t i = 2; i < a.size(); ++i) for (char c : a[i]) news += c == 'n' || c == 'N' || c == 'Q' || c == 'k'; reps = std::min(reps, std::max(1, (MAXID - 8) / news)); }
    sched = !free_; plan = a[0]; at_ = 0;
    Me w[MAXT];
    {
        P first[3]; for (int i = 0; i < 3; ++i) { first[i] = new Obj; }
        first[2]->next = first[0];
        for (int i = 0; i < NP; ++i) { Obj* n = new Obj; poolid[i] = n->id; pool[i] = new P(n); }
        size_t k = 0;
        for (int t = 1; t < nt; ++t) for (int s = 0; s < NS; ++s) { char d = k < a[1].size() ? a[1][k++] : '-'; w[t].s[s] = (d >= '0' && d <= '2') ? new P(first[d - '0']) : new P(); w[t].id[s] = idof(*w[t].s[s]); }
        for (int t = 0; t < MAXT; ++t) { box[t].p = nullptr; box[t].c = Clock(); run_[t] = t >= 1 && t < nt; }
    }
    std::vector<std::string> ops(nt); for (int t = 1; t < nt; ++t) ops[t] = a[size_t(t) + 1 < a.size() ? t + 1 : a.size() - 1];
    if (sched) { ++now[0].v[0]; for (int t = 1; t < nt; ++t) now[t].join(now[0]); }
    turn = 0;
    {
        std::vector<std::thread> th; for (int t = 1; t < nt; ++t) th.emplace_back(body, t, &ops[t], reps, &w[t], nt);
        if (sched) { std::unique_lock<std::mutex> l(bm); turn = 1; bcv[1].notify_one(); }
        for (auto& t : th) t.join();
    }
    if (sched) for (int t = 1; t < nt; ++t) now[0].join(now[t]);
    if (!bad) for (int t = 1; t < nt; ++t) { delete box[t].p; box[t].p = nullptr; }
    if (!bad) for (int i = 0; i < NP; ++i) if (gone[poolid[i]].load()) say("an object was deleted although it has an owner");
    if (!bad) for (int i = 0; i < NP; ++i) delete pool[i];
    if (bad) fail(badmsg);
    int n = made; for (int i = 0; i < n; ++i) REQ(gone[i].load() == 1, "object " << i << " was deleted " << gone[i].load() << " times after its last owner had let go");
    sched = false; plan = std::string();
}
void run_case(const Args& a) {
    long long left = 0;
    for (int i = 0; i < 3; ++i) { long long before = blocks; once(a); left = blocks - before; if (!left) return; }       // what is allocated once and kept is not left behind every time
    fail(num(left) + " blocks of memory were left behind");
}
void search(Search& s) {
    const std::string kinds = "cCmMbBpfr0zsnNQkhuUgt";
    auto op = [&] { return std::string(1, kinds[s.below(kinds.size())]) + char('0' + s.below(3)) + char('0' + s.below(3)); };
    auto plan = [&] { std::string p; bool dense = s.coin(); for (size_t n = 3 + s.below(30); n; --n) p += dense || s.coin(4) ? char('0' + s.below(4)) : '.'; return p; };
    auto init = [&](int nt) { std::string r; bool same = s.coin(); for (int i = 0; i < 3 * (nt - 1); ++i) r += same ? (s.coin(3) ? '-' : '0') : "012-"[s.below(4)]; return r; };
    auto tst = [&](const Args& a) { s.t(a); };
    tst({"01", "0--0--", "u00r00", "u00r00"}); tst({"0101010101", "0--0--", "z00", "z00"}); tst({"0123", "0--0--0--", "f00z00", "f00c10", "u00"});
    const char* two[] = {"r00", "z00", "f00", "c10", "C10", "p00", "b00", "000", "m10", "n00", "s00", "u00", "h00", "k10", "g00", "t00"};
    for (const char* x : two) for (const char* y : two) for (const char* p : {"01", "0..1", "0.1.", "1.0..1"}) { if (s.timeup()) break; tst({p, "0--0--", x, y}); }
    for (int i = 0; i < 3; ++i) { tst({"F300", "0--0--0--0--", "f00f00p00", "f00p01f00", "p00f00", "C10z10f00"}); tst({"F300", "2--2--2--2--", "f00h00b00", "c10r10p00", "n10k21r20", "m10m01"}); }
    while (!s.timeup()) {
        int nt = 3 + int(s.below(2)); if (s.coin(8)) nt = 5;
        bool fr = s.coin(40);
        Args a{fr ? "F" + std::to_string(20 + s.below(200)) : plan(), init(nt)};
        for (int t = 1; t < nt; ++t) { std::string o; for (size_t n = 1 + s.below(s.thorough ? 9 : 5); n; --n) o += op(); a.push_back(o); }
        tst(a);
    }
}
