// ---- all threads together. Every step of conc.rs, made by one thread of a consistent system, leaves it consistent, and is
// one of the steps `env` of every other thread. Thread 0 makes no steps: it is where owners are kept that others borrow.
// An access to an object has a name; vis is what a thread knows to have happened before its next step (C++11 happens-before);
// rel is what is published through a counter: a releasing read-modify-write adds the view of its thread, an acquiring one reads it.
pub struct Th { pub mine: Map<int, int>, pub bor: Set<int>, pub own: Set<int>, pub sole: Set<int>, pub seen: Set<int>, pub vis: ISet<int> }
pub struct Sys { pub live: Set<int>, pub cnt: Map<int, u64>, pub obj: Map<int, int>, pub th: Seq<Th>, pub acc: spec_fn(int) -> ISet<int>, pub rel: spec_fn(int) -> ISet<int> }
pub open spec fn view(s: Sys, t: int) -> CHeap { CHeap { live: s.live, cnt: s.cnt, obj: s.obj, mine: s.th[t].mine, bor: s.th[t].bor, own: s.th[t].own, sole: s.th[t].sole, seen: s.th[t].seen } }
pub open spec fn th_of(h: CHeap, vis: ISet<int>) -> Th { Th { mine: h.mine, bor: h.bor, own: h.own, sole: h.sole, seen: h.seen, vis } }
pub open spec fn put(s: Sys, t: int, h: CHeap, vis: ISet<int>) -> Sys { Sys { live: h.live, cnt: h.cnt, obj: h.obj, th: s.th.update(t, th_of(h, vis)), ..s } }
pub open spec fn tm(a: Th, c: int) -> int { if a.mine.contains_key(c) { a.mine[c] } else { 0 } }
pub open spec fn t1(a: Th, c: int) -> bool { a.sole.contains(c) || a.seen.contains(c) }
pub open spec fn total(th: Seq<Th>, c: int) -> int decreases th.len() { if th.len() == 0 { 0 } else { total(th.drop_last(), c) + tm(th.last(), c) } }
pub open spec fn counted(s: Sys, c: int) -> int { if s.cnt.contains_key(c) { s.cnt[c] as int } else { 0 } }
pub open spec fn has_obj(s: Sys, c: int) -> bool { s.cnt.contains_key(c) && forall|t: int| 0 <= t < s.th.len() ==> !(#[trigger] s.th[t]).sole.contains(c) }
pub open spec fn saw(a: Th, c: int, e: int) -> bool { (tm(a, c) >= 1 || a.bor.contains(c)) && a.vis.contains(e) }
pub open spec fn known(s: Sys, c: int, e: int) -> bool { (s.rel)(c).contains(e) || exists|t: int| 0 <= t < s.th.len() && saw(#[trigger] s.th[t], c, e) }
pub open spec fn reach(s: Sys, o: int) -> bool { (exists|t: int| 0 <= t < s.th.len() && (#[trigger] s.th[t]).own.contains(o)) || (exists|c: int| #[trigger] has_obj(s, c) && s.obj[c] == o) }
// the state as such
pub open spec fn inv1(s: Sys) -> bool {
    &&& s.th.len() >= 1 && !s.cnt.contains_key(0)
    &&& forall|c: int| #![trigger t1(s.th[0], c)] #![trigger s.th[0].bor.contains(c)] #![trigger s.th[0].own.contains(c)] !t1(s.th[0], c) && !s.th[0].bor.contains(c) && !s.th[0].own.contains(c)
    &&& forall|t: int, c: int| #![trigger tm(s.th[t], c)] 0 <= t < s.th.len() ==> tm(s.th[t], c) >= 0
    &&& forall|c: int| #![trigger counted(s, c)] #![trigger s.cnt.contains_key(c)] total(s.th, c) == counted(s, c)
    &&& forall|t: int, c: int| #![trigger s.th[t].bor.contains(c)] 0 <= t < s.th.len() && s.th[t].bor.contains(c) ==> tm(s.th[0], c) >= 1
    &&& forall|t: int, c: int| #![trigger t1(s.th[t], c)] 0 <= t < s.th.len() && t1(s.th[t], c) ==> s.cnt.contains_key(c) && s.cnt[c] == tm(s.th[t], c) && !(s.th[t].sole.contains(c) && s.th[t].seen.contains(c))
    &&& forall|t: int, u: int, c: int| #![trigger t1(s.th[t], c), t1(s.th[u], c)] 0 <= t < s.th.len() && 0 <= u < s.th.len() && t1(s.th[t], c) && t1(s.th[u], c) ==> t == u
}
// objects and their counters: one counter an object, owned objects are alive, nothing that is alive is lost
pub open spec fn inv2(s: Sys) -> bool {
    &&& forall|c: int| #[trigger] has_obj(s, c) ==> s.obj.contains_key(c) && s.obj[c] != 0 && s.live.contains(s.obj[c])
    &&& forall|c: int, t: int| #![trigger has_obj(s, c), s.th[t]] has_obj(s, c) && 0 <= t < s.th.len() ==> !s.th[t].own.contains(s.obj[c])
    &&& forall|c: int, d: int| #![trigger has_obj(s, c), has_obj(s, d)] has_obj(s, c) && has_obj(s, d) && s.obj[c] == s.obj[d] ==> c == d
    &&& forall|t: int, o: int| #![trigger s.th[t].own.contains(o)] 0 <= t < s.th.len() && s.th[t].own.contains(o) ==> o != 0 && s.live.contains(o)
    &&& forall|t: int, u: int, o: int| #![trigger s.th[t].own.contains(o), s.th[u].own.contains(o)] 0 <= t < s.th.len() && 0 <= u < s.th.len() && s.th[t].own.contains(o) && s.th[u].own.contains(o) ==> t == u
    &&& forall|o: int| #[trigger] s.live.contains(o) ==> reach(s, o)
    &&& forall|c: int| #[trigger] s.cnt.contains_key(c) && s.cnt[c] == 0 ==> exists|t: int| 0 <= t < s.th.len() && t1(#[trigger] s.th[t], c)
}
// accesses: who alone can reach an object knows every access to it; of the others, every access is known to somebody who stays, or published
pub open spec fn inv3(s: Sys) -> bool {
    &&& forall|t: int, o: int, e: int| #![trigger s.th[t].own.contains(o), (s.acc)(o).contains(e)] 0 <= t < s.th.len() && s.th[t].own.contains(o) && (s.acc)(o).contains(e) ==> s.th[t].vis.contains(e)
    &&& forall|c: int, e: int| #![trigger has_obj(s, c), (s.acc)(s.obj[c]).contains(e)] has_obj(s, c) && (s.acc)(s.obj[c]).contains(e) ==> known(s, c, e)
}
pub open spec fn inv(s: Sys) -> bool { inv1(s) && inv2(s) && inv3(s) }
// every other thread sees an `env` step
pub open spec fn others(s: Sys, r: Sys, t: int) -> bool { r.th.len() == s.th.len() && forall|u: int| 1 <= u < s.th.len() && u != t ==> env(#[trigger] view(s, u), view(r, u)) }

pub proof fn lemma_total_update(th: Seq<Th>, t: int, a: Th, c: int)
    requires 0 <= t < th.len()
    ensures total(th.update(t, a), c) == total(th, c) - tm(th[t], c) + tm(a, c)
    decreases th.len()
{
    if t == th.len() - 1 { assert(th.update(t, a).drop_last() =~= th.drop_last()); }
    else { assert(th.update(t, a).drop_last() =~= th.drop_last().update(t, a)); lemma_total_update(th.drop_last(), t, a, c); }
}
pub proof fn lemma_total_pos(th: Seq<Th>, c: int)
    requires forall|t: int| 0 <= t < th.len() ==> #[trigger] tm(th[t], c) >= 0
    ensures total(th, c) >= 0
    decreases th.len()
{ if th.len() > 0 { assert forall|t: int| 0 <= t < th.len() - 1 implies #[trigger] tm(th.drop_last()[t], c) >= 0 by { assert(th.drop_last()[t] == th[t]); } lemma_total_pos(th.drop_last(), c); assert(tm(th[th.len() - 1], c) >= 0); } }
// one thread has no more than all have, two threads neither
pub proof fn lemma_total_two(th: Seq<Th>, t: int, u: int, c: int)
    requires 0 <= t < th.len(), 0 <= u < th.len(), forall|i: int| 0 <= i < th.len() ==> #[trigger] tm(th[i], c) >= 0
    ensures tm(th[t], c) <= total(th, c), t != u ==> tm(th[t], c) + tm(th[u], c) <= total(th, c)
{
    let z = Th { mine: Map::empty(), bor: Set::empty(), own: Set::empty(), sole: Set::empty(), seen: Set::empty(), vis: ISet::empty() };
    let a = th.update(t, z);
    lemma_total_update(th, t, z, c);
    lemma_total_pos(a, c);
    if t != u { let b = a.update(u, z); lemma_total_update(a, u, z, c); assert(a[u] == th[u]); lemma_total_pos(b, c); }
}
pub proof fn lemma_two(s: Sys)
    requires inv1(s)
    ensures forall|t: int, c: int| 0 <= t < s.th.len() ==> #[trigger] tm(s.th[t], c) <= counted(s, c),
        forall|t: int, u: int, c: int| #![trigger tm(s.th[t], c), tm(s.th[u], c)] 0 <= t < s.th.len() && 0 <= u < s.th.len() && t != u ==> tm(s.th[t], c) + tm(s.th[u], c) <= counted(s, c),
        forall|t: int, c: int| 0 <= t < s.th.len() && #[trigger] tm(s.th[t], c) > 0 ==> s.cnt.contains_key(c) && c != 0,
        forall|t: int, u: int, c: int| #![trigger t1(s.th[t], c), tm(s.th[u], c)] 0 <= t < s.th.len() && 0 <= u < s.th.len() && t != u && t1(s.th[t], c) ==> tm(s.th[u], c) == 0 && !s.th[u].bor.contains(c),
        forall|t: int, c: int| 0 <= t < s.th.len() && #[trigger] t1(s.th[t], c) ==> t != 0 ==> !s.th[t].bor.contains(c),
        forall|t: int, c: int| #![trigger s.th[t].bor.contains(c)] 0 <= t < s.th.len() && s.th[t].bor.contains(c) ==> s.cnt.contains_key(c) && c != 0 && tm(s.th[t], c) + 1 <= s.cnt[c],
{
    assert forall|t: int, u: int, c: int| #![trigger tm(s.th[t], c), tm(s.th[u], c)] 0 <= t < s.th.len() && 0 <= u < s.th.len() implies tm(s.th[t], c) <= counted(s, c) && (t != u ==> tm(s.th[t], c) + tm(s.th[u], c) <= counted(s, c)) by { lemma_total_two(s.th, t, u, c); }
    assert forall|t: int, c: int| #![trigger s.th[t].bor.contains(c)] 0 <= t < s.th.len() && s.th[t].bor.contains(c) implies s.cnt.contains_key(c) && c != 0 && tm(s.th[t], c) + 1 <= s.cnt[c] by
    { assert(t != 0); assert(tm(s.th[0], c) >= 1); assert(tm(s.th[t], c) + tm(s.th[0], c) <= counted(s, c)); }
    assert forall|t: int, u: int, c: int| #![trigger t1(s.th[t], c), tm(s.th[u], c)] 0 <= t < s.th.len() && 0 <= u < s.th.len() && t != u && t1(s.th[t], c) implies tm(s.th[u], c) == 0 && !s.th[u].bor.contains(c) by
    { assert(tm(s.th[t], c) + tm(s.th[u], c) <= counted(s, c)); assert(t != 0); assert(tm(s.th[t], c) + tm(s.th[0], c) <= counted(s, c)); }
    assert forall|t: int, c: int| 0 <= t < s.th.len() && #[trigger] t1(s.th[t], c) && t != 0 implies !s.th[t].bor.contains(c) by { if s.th[t].bor.contains(c) { assert(tm(s.th[t], c) + tm(s.th[0], c) <= counted(s, c)); } }
}

pub proof fn lemma_view(s: Sys, t: int)
    requires inv(s), 1 <= t < s.th.len()
    ensures cwf(view(s, t)), forall|c: int| #[trigger] pub_(view(s, t), c) ==> has_obj(s, c)
{
    lemma_two(s);
    let h = view(s, t);
    assert forall|c: int| mn(h, c) == tm(s.th[t], c) && (one(h, c) <==> t1(s.th[t], c)) by {}
    assert forall|c: int| #[trigger] pub_(h, c) implies has_obj(s, c) by {
        assert(s.cnt.contains_key(c));
        assert forall|u: int| 0 <= u < s.th.len() implies !(#[trigger] s.th[u]).sole.contains(c) by {
            if s.th[u].sole.contains(c) { assert(t1(s.th[u], c)); if u != t { assert(tm(s.th[t], c) == 0); assert(t1(s.th[t], c) <==> one(h, c)); } }
        }
    }
    assert forall|c: int| #![trigger h.cnt.contains_key(c)] #![trigger mn(h, c)] #![trigger h.bor.contains(c)] hold(h, c) || one(h, c) implies c != 0 && h.cnt.contains_key(c) by {}
    assert forall|c: int| #![trigger h.obj.contains_key(c)] #![trigger h.obj[c]] pub_(h, c) implies h.obj.contains_key(c) && h.obj[c] != 0 && h.live.contains(h.obj[c]) && !h.own.contains(h.obj[c]) by { assert(has_obj(s, c)); }
    assert forall|c: int, d: int| #![trigger h.obj[c], h.obj[d]] pub_(h, c) && pub_(h, d) && h.obj[c] == h.obj[d] implies c == d by { assert(has_obj(s, c) && has_obj(s, d)); }
    assert forall|c: int| #![trigger mn(h, c)] mn(h, c) >= 0 && (mn(h, c) > 0 ==> h.cnt[c] >= mn(h, c)) && (h.bor.contains(c) ==> h.cnt[c] >= mn(h, c) + 1) by
    { assert(tm(s.th[t], c) <= counted(s, c)); if h.bor.contains(c) { assert(s.th[t].bor.contains(c)); } }
    assert forall|c: int| #![trigger one(h, c)] #![trigger h.sole.contains(c)] #![trigger h.seen.contains(c)] one(h, c) implies h.cnt[c] == mn(h, c) && !h.bor.contains(c) by { assert(t1(s.th[t], c)); }
    assert forall|c: int| #![trigger h.sole.contains(c)] !(h.sole.contains(c) && h.seen.contains(c)) by { if h.sole.contains(c) { assert(t1(s.th[t], c)); } }
    assert forall|o: int| #![trigger h.own.contains(o)] h.own.contains(o) implies o != 0 && h.live.contains(o) by { assert(s.th[t].own.contains(o)); }
}
// a step that changes only the counters its thread holds changes nothing another thread relies on
pub proof fn lemma_others(s: Sys, r: Sys, t: int)
    requires inv(s), inv(r), 1 <= t < s.th.len(), r.th.len() == s.th.len(), forall|u: int| 0 <= u < s.th.len() && u != t ==> #[trigger] r.th[u] == s.th[u],
        forall|c: int| #![trigger r.cnt[c]] #![trigger r.cnt.contains_key(c)] !hold(view(s, t), c) && !one(view(s, t), c) && s.cnt.contains_key(c) ==> r.cnt.contains_key(c) && r.cnt[c] == s.cnt[c],
        forall|c: int| #![trigger r.obj[c]] !one(view(s, t), c) && s.cnt.contains_key(c) ==> r.obj[c] == s.obj[c]
    ensures others(s, r, t)
{
    lemma_two(s);
    assert forall|u: int| 1 <= u < s.th.len() && u != t implies env(#[trigger] view(s, u), view(r, u)) by {
        lemma_view(r, u);
        lemma_view(s, u);
        assert(r.th[u] == s.th[u]);
        let h = view(s, u); let g = view(r, u); let m = view(s, t);
        assert forall|c: int| mn(h, c) == tm(s.th[u], c) && (one(h, c) <==> t1(s.th[u], c)) by {}
        assert forall|c: int| mn(m, c) == tm(s.th[t], c) && (one(m, c) <==> t1(s.th[t], c)) by {}
        assert forall|c: int| #![trigger g.obj[c]] #![trigger h.obj[c]] pub_(h, c) implies g.obj[c] == h.obj[c] by {
            assert(s.cnt.contains_key(c));
            if one(m, c) { assert(t1(s.th[t], c)); assert(tm(s.th[u], c) == 0); assert(t1(s.th[u], c) ==> u == t); }
        }
        assert forall|c: int| #![trigger one(h, c)] #![trigger g.cnt[c]] one(h, c) implies g.cnt.contains_key(c) && g.cnt[c] == h.cnt[c] by {
            assert(t1(s.th[u], c)); assert(tm(s.th[t], c) == 0); assert(!hold(m, c)); assert(t1(s.th[t], c) ==> u == t);
        }
    }
}
pub open spec fn with_rel(s: Sys, c: int, v: ISet<int>) -> Sys { Sys { rel: |d: int| if d == c { v } else { (s.rel)(d) }, ..s } }
// ---- the steps of thread t
pub open spec fn sys_add(s: Sys, t: int, c: int, k: u64) -> Sys { put(s, t, op_add(view(s, t), c, k), s.th[t].vis) }
pub proof fn lemma_sys_add(s: Sys, t: int, c: int, k: u64)
    requires inv(s), 1 <= t < s.th.len(), op_add_pre(view(s, t), c, k), s.cnt[c] + k <= u64::MAX
    ensures inv(sys_add(s, t, c, k)), others(s, sys_add(s, t, c, k), t)
{
    let r = sys_add(s, t, c, k);
    lemma_two(s); lemma_view(s, t);
    let h = view(s, t);
    assert(mn(h, c) == tm(s.th[t], c) && s.cnt.contains_key(c));
    assert forall|d: int| total(r.th, d) == total(s.th, d) + (if d == c { k as int } else { 0 }) by { lemma_total_update(s.th, t, r.th[t], d); }
    assert forall|u: int, d: int| 0 <= u < s.th.len() implies #[trigger] tm(r.th[u], d) == tm(s.th[u], d) + (if u == t && d == c { k as int } else { 0 }) && (t1(r.th[u], d) <==> t1(s.th[u], d))
        && r.th[u].own == s.th[u].own && r.th[u].bor == s.th[u].bor && r.th[u].vis == s.th[u].vis by {}
    assert(total(s.th, c) == counted(s, c));
    assert(inv1(r)) by {
        assert forall|u: int, d: int| #![trigger t1(r.th[u], d)] 0 <= u < r.th.len() && t1(r.th[u], d) implies r.cnt.contains_key(d) && r.cnt[d] == tm(r.th[u], d) && !(r.th[u].sole.contains(d) && r.th[u].seen.contains(d)) by {
            assert(t1(s.th[u], d)); if d == c && u != t { assert(tm(s.th[t], c) == 0 && !s.th[t].bor.contains(c)); assert(h.sole.contains(c)); assert(t1(s.th[t], c)); assert(false); } assert(tm(r.th[u], d) == tm(s.th[u], d) + (if u == t && d == c { k as int } else { 0 }));
        }
        assert forall|d: int| #![trigger counted(r, d)] #![trigger r.cnt.contains_key(d)] total(r.th, d) == counted(r, d) by { assert(total(s.th, d) == counted(s, d)); }
        assert forall|u: int, d: int| #![trigger r.th[u].bor.contains(d)] 0 <= u < r.th.len() && r.th[u].bor.contains(d) implies tm(r.th[0], d) >= 1 by { assert(s.th[u].bor.contains(d)); }
    }
    lemma_same2(s, r, t);
    assert forall|u: int, d: int, e: int| 0 <= u < s.th.len() && #[trigger] saw(s.th[u], d, e) implies known(r, d, e) by { assert(tm(r.th[u], d) >= tm(s.th[u], d)); assert(saw(r.th[u], d, e)); }
    lemma_same3(s, r);
    lemma_others(s, r, t);
}
// what only concerns objects does not see a change of counts, as long as no counter is left at 0 by everybody
pub proof fn lemma_same2b(s: Sys, r: Sys)
    requires inv(s), r.live == s.live, r.th.len() == s.th.len(), forall|c: int| #[trigger] has_obj(r, c) <==> has_obj(s, c), forall|c: int| #[trigger] has_obj(s, c) ==> r.obj.contains_key(c) && r.obj[c] == s.obj[c],
        forall|u: int| 0 <= u < s.th.len() ==> (#[trigger] r.th[u]).own =~= s.th[u].own,
        forall|c: int| #[trigger] r.cnt.contains_key(c) && r.cnt[c] == 0 ==> exists|u: int| 0 <= u < s.th.len() && t1(#[trigger] r.th[u], c)
    ensures inv2(r)
{
    assert forall|c: int, u: int| #![trigger has_obj(r, c), r.th[u]] has_obj(r, c) && 0 <= u < r.th.len() implies !r.th[u].own.contains(r.obj[c]) by { assert(has_obj(s, c)); assert(!s.th[u].own.contains(s.obj[c])); }
    assert forall|c: int| #[trigger] has_obj(r, c) implies r.obj.contains_key(c) && r.obj[c] != 0 && r.live.contains(r.obj[c]) by { assert(has_obj(s, c)); }
    assert forall|c: int, d: int| #![trigger has_obj(r, c), has_obj(r, d)] has_obj(r, c) && has_obj(r, d) && r.obj[c] == r.obj[d] implies c == d by { assert(has_obj(s, c) && has_obj(s, d)); }
    assert forall|u: int, o: int| #![trigger r.th[u].own.contains(o)] 0 <= u < r.th.len() && r.th[u].own.contains(o) implies o != 0 && r.live.contains(o) by { assert(s.th[u].own.contains(o)); }
    assert forall|u: int, w: int, o: int| #![trigger r.th[u].own.contains(o), r.th[w].own.contains(o)] 0 <= u < r.th.len() && 0 <= w < r.th.len() && r.th[u].own.contains(o) && r.th[w].own.contains(o) implies u == w by { assert(s.th[u].own.contains(o) && s.th[w].own.contains(o)); }
    assert forall|o: int| #[trigger] r.live.contains(o) implies reach(r, o) by {
        assert(reach(s, o));
        if exists|u: int| 0 <= u < s.th.len() && (#[trigger] s.th[u]).own.contains(o) { let u = choose|u: int| 0 <= u < s.th.len() && (#[trigger] s.th[u]).own.contains(o); assert(r.th[u].own.contains(o)); }
        else { let c = choose|c: int| #[trigger] has_obj(s, c) && s.obj[c] == o; assert(has_obj(r, c)); }
    }
}
pub proof fn lemma_same2(s: Sys, r: Sys, t: int)
    requires inv(s), inv1(r), r.live == s.live, r.obj == s.obj, r.cnt.dom() =~= s.cnt.dom(), r.th.len() == s.th.len(),
        forall|u: int| 0 <= u < s.th.len() ==> (#[trigger] r.th[u]).own =~= s.th[u].own && r.th[u].sole =~= s.th[u].sole && s.th[u].seen.subset_of(r.th[u].seen),
        forall|c: int| #[trigger] r.cnt.contains_key(c) && r.cnt[c] == 0 ==> s.cnt[c] == 0 || exists|u: int| 0 <= u < s.th.len() && t1(#[trigger] r.th[u], c)
    ensures inv2(r), forall|c: int| #[trigger] has_obj(r, c) <==> has_obj(s, c)
{
    assert forall|c: int| #[trigger] has_obj(r, c) <==> has_obj(s, c) by {
        if has_obj(s, c) { assert forall|u: int| 0 <= u < r.th.len() implies !(#[trigger] r.th[u]).sole.contains(c) by { assert(!s.th[u].sole.contains(c)); } }
        if has_obj(r, c) { assert forall|u: int| 0 <= u < s.th.len() implies !(#[trigger] s.th[u]).sole.contains(c) by { assert(!r.th[u].sole.contains(c)); } }
    }
    assert forall|c: int| #[trigger] r.cnt.contains_key(c) && r.cnt[c] == 0 implies exists|u: int| 0 <= u < r.th.len() && t1(#[trigger] r.th[u], c) by {
        if s.cnt[c] == 0 { assert(s.cnt.contains_key(c)); let u = choose|u: int| 0 <= u < s.th.len() && t1(#[trigger] s.th[u], c); assert(r.th[u].sole =~= s.th[u].sole); assert(t1(r.th[u], c)); }
    }
    lemma_same2b(s, r);
}
// nobody forgets an access, and nobody who knows of one lets go
pub proof fn lemma_same3(s: Sys, r: Sys)
    requires inv(s), r.acc == s.acc, r.th.len() == s.th.len(), forall|c: int| #[trigger] has_obj(r, c) ==> has_obj(s, c) && r.obj[c] == s.obj[c],
        forall|u: int, o: int| 0 <= u < s.th.len() && #[trigger] r.th[u].own.contains(o) ==> s.th[u].own.contains(o),
        forall|u: int| 0 <= u < s.th.len() ==> s.th[u].vis.subset_of(#[trigger] r.th[u].vis),
        forall|c: int| #[trigger] has_obj(r, c) ==> (s.rel)(c).subset_of((r.rel)(c)),
        forall|u: int, c: int, e: int| 0 <= u < s.th.len() && #[trigger] saw(s.th[u], c, e) && has_obj(r, c) ==> known(r, c, e)
    ensures inv3(r)
{
    assert forall|u: int, o: int, e: int| #![trigger r.th[u].own.contains(o), (r.acc)(o).contains(e)] 0 <= u < r.th.len() && r.th[u].own.contains(o) && (r.acc)(o).contains(e) implies r.th[u].vis.contains(e) by
    { assert(s.th[u].own.contains(o) && (s.acc)(o).contains(e)); assert(s.th[u].vis.contains(e)); }
    assert forall|c: int, e: int| #![trigger has_obj(r, c), (r.acc)(r.obj[c]).contains(e)] has_obj(r, c) && (r.acc)(r.obj[c]).contains(e) implies known(r, c, e) by {
        assert(has_obj(s, c) && (s.acc)(s.obj[c]).contains(e));
        if (s.rel)(c).contains(e) { assert((r.rel)(c).contains(e)); } else { let u = choose|u: int| 0 <= u < s.th.len() && saw(#[trigger] s.th[u], c, e); assert(saw(s.th[u], c, e)); }
    }
}

// letting go of owners with a release; whoever is left without any other owner has seen it
pub open spec fn sys_sub(s: Sys, t: int, c: int, k: u64) -> Sys { put(with_rel(s, c, (s.rel)(c).union(s.th[t].vis)), t, op_sub(view(s, t), c, k, false), s.th[t].vis) }
pub proof fn lemma_sys_sub(s: Sys, t: int, c: int, k: u64)
    requires inv(s), 1 <= t < s.th.len(), op_sub_pre(view(s, t), c, k)
    ensures inv(sys_sub(s, t, c, k)), others(s, sys_sub(s, t, c, k), t)
{
    let r = sys_sub(s, t, c, k);
    lemma_two(s); lemma_view(s, t);
    let h = view(s, t);
    assert(mn(h, c) == tm(s.th[t], c) && s.cnt.contains_key(c));
    assert(tm(s.th[t], c) <= counted(s, c));
    assert forall|d: int| total(r.th, d) == total(s.th, d) - (if d == c { k as int } else { 0 }) by { lemma_total_update(s.th, t, r.th[t], d); }
    assert forall|u: int, d: int| 0 <= u < s.th.len() implies #[trigger] tm(r.th[u], d) == tm(s.th[u], d) - (if u == t && d == c { k as int } else { 0 })
        && r.th[u].own == s.th[u].own && r.th[u].bor == s.th[u].bor && r.th[u].vis == s.th[u].vis && r.th[u].sole == s.th[u].sole by {}
    assert forall|u: int, d: int| 0 <= u < s.th.len() && #[trigger] t1(r.th[u], d) implies t1(s.th[u], d) || (u == t && d == c && r.cnt[c] == 0) by {}
    assert(total(s.th, c) == counted(s, c));
    assert(inv1(r)) by {
        assert forall|u: int, d: int| #![trigger tm(r.th[u], d)] 0 <= u < r.th.len() implies tm(r.th[u], d) >= 0 by { assert(tm(s.th[u], d) >= 0); }
        assert forall|d: int| #![trigger counted(r, d)] #![trigger r.cnt.contains_key(d)] total(r.th, d) == counted(r, d) by { assert(total(s.th, d) == counted(s, d)); }
        assert forall|u: int, d: int| #![trigger t1(r.th[u], d)] 0 <= u < r.th.len() && t1(r.th[u], d) implies r.cnt.contains_key(d) && r.cnt[d] == tm(r.th[u], d) && !(r.th[u].sole.contains(d) && r.th[u].seen.contains(d)) by {
            assert(tm(r.th[u], d) == tm(s.th[u], d) - (if u == t && d == c { k as int } else { 0 }));
            if t1(s.th[u], d) { if d == c && u != t { assert(tm(s.th[t], c) == 0); } }
        }
        assert forall|u: int, w: int, d: int| #![trigger t1(r.th[u], d), t1(r.th[w], d)] 0 <= u < r.th.len() && 0 <= w < r.th.len() && t1(r.th[u], d) && t1(r.th[w], d) implies u == w by {
            if d == c { if t1(s.th[u], d) && u != t { assert(tm(s.th[t], c) == 0); } if t1(s.th[w], d) && w != t { assert(tm(s.th[t], c) == 0); } }
        }
        assert forall|u: int, d: int| #![trigger r.th[u].bor.contains(d)] 0 <= u < r.th.len() && r.th[u].bor.contains(d) implies tm(r.th[0], d) >= 1 by { assert(s.th[u].bor.contains(d)); }
        assert forall|d: int| #![trigger t1(r.th[0], d)] !t1(r.th[0], d) by { assert(!t1(s.th[0], d)); }
    }
    assert forall|d: int| #[trigger] r.cnt.contains_key(d) && r.cnt[d] == 0 implies s.cnt[d] == 0 || exists|u: int| 0 <= u < s.th.len() && t1(#[trigger] r.th[u], d) by { if d == c { assert(t1(r.th[t], c)); } }
    lemma_same2(s, r, t);
    assert forall|u: int, d: int, e: int| 0 <= u < s.th.len() && #[trigger] saw(s.th[u], d, e) implies known(r, d, e) by {
        assert(tm(r.th[u], d) == tm(s.th[u], d) - (if u == t && d == c { k as int } else { 0 }));
        if u == t && d == c { assert((r.rel)(c).contains(e)); } else { assert(saw(r.th[u], d, e)); }
    }
    lemma_same3(s, r);
    lemma_others(s, r, t);
}
// acquire: the last owner of some counters now knows what all former owners did
pub open spec fn acq_of(s: Sys, t: int, a: Set<int>) -> ISet<int> { ISet::new(|e: int| s.th[t].vis.contains(e) || exists|c: int| a.contains(c) && #[trigger] (s.rel)(c).contains(e)) }
pub open spec fn op_alone_all(h: CHeap, a: Set<int>) -> CHeap { CHeap { sole: h.sole.union(a), seen: h.seen.difference(a), own: h.own.union(a.map(|c: int| h.obj[c])), ..h } }
pub open spec fn sys_alone(s: Sys, t: int, a: Set<int>) -> Sys { put(s, t, op_alone_all(view(s, t), a), acq_of(s, t, a)) }
pub proof fn lemma_sys_alone(s: Sys, t: int, a: Set<int>)
    requires inv(s), 1 <= t < s.th.len(), a.subset_of(s.th[t].seen)
    ensures inv(sys_alone(s, t, a)), others(s, sys_alone(s, t, a), t)
{
    let r = sys_alone(s, t, a);
    lemma_two(s); lemma_view(s, t);
    let h = view(s, t);
    assert forall|d: int| total(r.th, d) == total(s.th, d) by { lemma_total_update(s.th, t, r.th[t], d); }
    assert forall|u: int, d: int| 0 <= u < s.th.len() implies #[trigger] tm(r.th[u], d) == tm(s.th[u], d) by {}
    assert forall|u: int, d: int| 0 <= u < s.th.len() implies (#[trigger] t1(r.th[u], d) <==> t1(s.th[u], d)) by {}
    assert forall|u: int| 0 <= u < s.th.len() && u != t implies #[trigger] r.th[u] == s.th[u] by {}
    assert forall|c: int| #[trigger] a.contains(c) implies has_obj(s, c) && s.cnt.contains_key(c) && pub_(h, c) by {
        assert(t1(s.th[t], c));
        assert forall|u: int| 0 <= u < s.th.len() implies !(#[trigger] s.th[u]).sole.contains(c) by { if s.th[u].sole.contains(c) { assert(t1(s.th[u], c)); } }
    }
    assert forall|o: int| #[trigger] r.th[t].own.contains(o) <==> s.th[t].own.contains(o) || exists|c: int| a.contains(c) && s.obj[c] == o by {
        if exists|c: int| a.contains(c) && s.obj[c] == o { let c = choose|c: int| a.contains(c) && s.obj[c] == o; assert(a.map(|c: int| h.obj[c]).contains(h.obj[c])); }
    }
    assert(inv1(r)) by {
        assert forall|u: int, d: int| #![trigger tm(r.th[u], d)] 0 <= u < r.th.len() implies tm(r.th[u], d) >= 0 by { assert(tm(s.th[u], d) >= 0); }
        assert forall|d: int| #![trigger counted(r, d)] #![trigger r.cnt.contains_key(d)] total(r.th, d) == counted(r, d) by { assert(total(s.th, d) == counted(s, d)); }
        assert forall|u: int, d: int| #![trigger t1(r.th[u], d)] 0 <= u < r.th.len() && t1(r.th[u], d) implies r.cnt.contains_key(d) && r.cnt[d] == tm(r.th[u], d) && !(r.th[u].sole.contains(d) && r.th[u].seen.contains(d)) by { assert(t1(s.th[u], d)); }
        assert forall|u: int, w: int, d: int| #![trigger t1(r.th[u], d), t1(r.th[w], d)] 0 <= u < r.th.len() && 0 <= w < r.th.len() && t1(r.th[u], d) && t1(r.th[w], d) implies u == w by { assert(t1(s.th[u], d) && t1(s.th[w], d)); }
        assert forall|u: int, d: int| #![trigger r.th[u].bor.contains(d)] 0 <= u < r.th.len() && r.th[u].bor.contains(d) implies tm(r.th[0], d) >= 1 by { assert(s.th[u].bor.contains(d)); }
        assert(r.th[0] == s.th[0]);
    }
    assert forall|c: int| #[trigger] has_obj(r, c) <==> has_obj(s, c) && !a.contains(c) by {
        if has_obj(s, c) && !a.contains(c) { assert forall|u: int| 0 <= u < r.th.len() implies !(#[trigger] r.th[u]).sole.contains(c) by { assert(!s.th[u].sole.contains(c)); } }
        if has_obj(r, c) { assert(!r.th[t].sole.contains(c)); assert forall|u: int| 0 <= u < s.th.len() implies !(#[trigger] s.th[u]).sole.contains(c) by { assert(!r.th[u].sole.contains(c)); } }
    }
    assert(inv2(r)) by {
        assert forall|c: int, u: int| #![trigger has_obj(r, c), r.th[u]] has_obj(r, c) && 0 <= u < r.th.len() implies !r.th[u].own.contains(r.obj[c]) by {
            assert(has_obj(s, c)); assert(!s.th[u].own.contains(s.obj[c]));
            if u == t && r.th[t].own.contains(r.obj[c]) { let d = choose|d: int| a.contains(d) && s.obj[d] == s.obj[c]; assert(has_obj(s, d)); assert(c == d); }
        }
        assert forall|c: int| #[trigger] has_obj(r, c) implies r.obj.contains_key(c) && r.obj[c] != 0 && r.live.contains(r.obj[c]) by { assert(has_obj(s, c)); }
        assert forall|c: int, d: int| #![trigger has_obj(r, c), has_obj(r, d)] has_obj(r, c) && has_obj(r, d) && r.obj[c] == r.obj[d] implies c == d by { assert(has_obj(s, c) && has_obj(s, d)); }
        assert forall|u: int, o: int| #![trigger r.th[u].own.contains(o)] 0 <= u < r.th.len() && r.th[u].own.contains(o) implies o != 0 && r.live.contains(o) by {
            if s.th[u].own.contains(o) {} else { let d = choose|d: int| a.contains(d) && s.obj[d] == o; assert(has_obj(s, d)); }
        }
        assert forall|u: int, w: int, o: int| #![trigger r.th[u].own.contains(o), r.th[w].own.contains(o)] 0 <= u < r.th.len() && 0 <= w < r.th.len() && r.th[u].own.contains(o) && r.th[w].own.contains(o) implies u == w by {
            if s.th[u].own.contains(o) && s.th[w].own.contains(o) {} else { let d = choose|d: int| a.contains(d) && s.obj[d] == o; assert(has_obj(s, d)); assert(!s.th[u].own.contains(s.obj[d])); assert(!s.th[w].own.contains(s.obj[d])); }
        }
        assert forall|o: int| #[trigger] r.live.contains(o) implies reach(r, o) by {
            assert(reach(s, o));
            if exists|u: int| 0 <= u < s.th.len() && (#[trigger] s.th[u]).own.contains(o) { let u = choose|u: int| 0 <= u < s.th.len() && (#[trigger] s.th[u]).own.contains(o); assert(r.th[u].own.contains(o)); }
            else { let c = choose|c: int| #[trigger] has_obj(s, c) && s.obj[c] == o; if a.contains(c) { assert(r.th[t].own.contains(o)); } else { assert(has_obj(r, c)); } }
        }
        assert forall|c: int| #[trigger] r.cnt.contains_key(c) && r.cnt[c] == 0 implies exists|u: int| 0 <= u < r.th.len() && t1(#[trigger] r.th[u], c) by {
            assert(s.cnt.contains_key(c)); let u = choose|u: int| 0 <= u < s.th.len() && t1(#[trigger] s.th[u], c); assert(t1(r.th[u], c));
        }
    }
    assert(inv3(r)) by {
        assert forall|u: int, o: int, e: int| #![trigger r.th[u].own.contains(o), (r.acc)(o).contains(e)] 0 <= u < r.th.len() && r.th[u].own.contains(o) && (r.acc)(o).contains(e) implies r.th[u].vis.contains(e) by {
            assert((s.acc)(o).contains(e));
            if s.th[u].own.contains(o) { assert(s.th[u].vis.contains(e)); }
            else {
                let d = choose|d: int| a.contains(d) && s.obj[d] == o; assert(has_obj(s, d)); assert(known(s, d, e));
                if !(s.rel)(d).contains(e) { let w = choose|w: int| 0 <= w < s.th.len() && saw(#[trigger] s.th[w], d, e); assert(t1(s.th[t], d)); assert(tm(s.th[w], d) >= 1 || s.th[w].bor.contains(d)); if w != t { assert(tm(s.th[w], d) == 0 && !s.th[w].bor.contains(d)); } }
            }
        }
        assert forall|c: int, e: int| #![trigger has_obj(r, c), (r.acc)(r.obj[c]).contains(e)] has_obj(r, c) && (r.acc)(r.obj[c]).contains(e) implies known(r, c, e) by {
            assert(has_obj(s, c) && (s.acc)(s.obj[c]).contains(e)); assert(known(s, c, e));
            if !(s.rel)(c).contains(e) { let u = choose|u: int| 0 <= u < s.th.len() && saw(#[trigger] s.th[u], c, e); assert(saw(r.th[u], c, e)); }
        }
    }
    lemma_others(s, r, t);
}
// two steps of the same thread
pub proof fn lemma_others_trans(s: Sys, m: Sys, r: Sys, t: int)
    requires others(s, m, t), others(m, r, t)
    ensures others(s, r, t)
{
    assert forall|u: int| 1 <= u < s.th.len() && u != t implies env(#[trigger] view(s, u), view(r, u)) by {
        let h = view(s, u); let g = view(m, u); let k = view(r, u);
        assert(env(h, g) && env(g, k));
        assert forall|c: int| mn(g, c) == mn(h, c) && (one(g, c) <==> one(h, c)) by {}
        assert forall|c: int| #![trigger k.obj[c]] #![trigger h.obj[c]] pub_(h, c) implies k.obj[c] == h.obj[c] by { assert(pub_(g, c)); assert(g.obj[c] == h.obj[c]); }
        assert forall|c: int| #![trigger one(h, c)] #![trigger k.cnt[c]] one(h, c) implies k.cnt.contains_key(c) && k.cnt[c] == h.cnt[c] by { assert(one(g, c)); }
    }
}
// knowing more does no harm
pub open spec fn sys_learn(s: Sys, t: int, v: ISet<int>) -> Sys { Sys { th: s.th.update(t, Th { vis: s.th[t].vis.union(v), ..s.th[t] }), ..s } }
pub proof fn lemma_learn(s: Sys, t: int, v: ISet<int>)
    requires inv(s), 0 <= t < s.th.len()
    ensures inv(sys_learn(s, t, v)), others(s, sys_learn(s, t, v), t), t == 0 ==> forall|u: int| 1 <= u < s.th.len() ==> env(#[trigger] view(s, u), view(sys_learn(s, t, v), u))
{
    let r = sys_learn(s, t, v);
    lemma_two(s);
    assert forall|d: int| total(r.th, d) == total(s.th, d) by { lemma_total_update(s.th, t, r.th[t], d); }
    assert forall|u: int, d: int| 0 <= u < s.th.len() implies #[trigger] tm(r.th[u], d) == tm(s.th[u], d) && (t1(r.th[u], d) <==> t1(s.th[u], d)) && r.th[u].bor == s.th[u].bor && r.th[u].own == s.th[u].own && r.th[u].sole == s.th[u].sole && r.th[u].seen == s.th[u].seen by {}
    lemma_inv1_same(s, r);
    assert forall|u: int| 0 <= u < s.th.len() implies (#[trigger] r.th[u]).own =~= s.th[u].own && r.th[u].sole =~= s.th[u].sole && s.th[u].seen.subset_of(r.th[u].seen) by { assert(tm(r.th[u], 0) == tm(s.th[u], 0)); }
    lemma_same2(s, r, t);
    assert forall|u: int, c: int, e: int| 0 <= u < s.th.len() && #[trigger] saw(s.th[u], c, e) implies known(r, c, e) by { assert(tm(r.th[u], c) == tm(s.th[u], c)); assert(saw(r.th[u], c, e)); }
    assert forall|u: int| 0 <= u < s.th.len() implies s.th[u].vis.subset_of(#[trigger] r.th[u].vis) by {}
    lemma_same3(s, r);
    assert forall|u: int| 1 <= u < s.th.len() && u != t implies env(#[trigger] view(s, u), view(r, u)) by { lemma_view(s, u); assert(view(r, u) == view(s, u)); }
}
pub proof fn lemma_inv1_same(s: Sys, r: Sys)
    requires inv1(s), r.cnt == s.cnt, r.th.len() == s.th.len(), forall|d: int| total(r.th, d) == total(s.th, d), r.th[0].bor == s.th[0].bor, r.th[0].own == s.th[0].own,
        forall|u: int, d: int| 0 <= u < s.th.len() ==> #[trigger] tm(r.th[u], d) == tm(s.th[u], d) && r.th[u].bor == s.th[u].bor && r.th[u].sole == s.th[u].sole && r.th[u].seen == s.th[u].seen
    ensures inv1(r)
{
    assert forall|u: int, d: int| #![trigger t1(r.th[u], d)] 0 <= u < s.th.len() implies (t1(r.th[u], d) <==> t1(s.th[u], d)) && tm(r.th[u], d) == tm(s.th[u], d) by { assert(tm(r.th[u], d) == tm(s.th[u], d)); }
    assert forall|u: int, d: int| #![trigger tm(r.th[u], d)] 0 <= u < r.th.len() implies tm(r.th[u], d) >= 0 by { assert(tm(s.th[u], d) >= 0); }
    assert forall|d: int| #![trigger counted(r, d)] #![trigger r.cnt.contains_key(d)] total(r.th, d) == counted(r, d) by { assert(total(s.th, d) == counted(s, d)); }
    assert forall|u: int, d: int| #![trigger t1(r.th[u], d)] 0 <= u < r.th.len() && t1(r.th[u], d) implies r.cnt.contains_key(d) && r.cnt[d] == tm(r.th[u], d) && !(r.th[u].sole.contains(d) && r.th[u].seen.contains(d)) by { assert(t1(s.th[u], d)); }
    assert forall|u: int, w: int, d: int| #![trigger t1(r.th[u], d), t1(r.th[w], d)] 0 <= u < r.th.len() && 0 <= w < r.th.len() && t1(r.th[u], d) && t1(r.th[w], d) implies u == w by { assert(t1(s.th[u], d) && t1(s.th[w], d)); }
    assert forall|u: int, d: int| #![trigger r.th[u].bor.contains(d)] 0 <= u < r.th.len() && r.th[u].bor.contains(d) implies tm(r.th[0], d) >= 1 by { assert(tm(r.th[u], d) == tm(s.th[u], d)); assert(s.th[u].bor.contains(d)); assert(tm(r.th[0], d) == tm(s.th[0], d)); }
    assert forall|d: int| #![trigger t1(r.th[0], d)] !t1(r.th[0], d) by { assert(!t1(s.th[0], d)); }
}
// a read-modify-write that both publishes and acquires, as SharedPtr uses it: the acquire may also come as a fence afterwards (sys_alone)
pub open spec fn sys_sub_acq(s: Sys, t: int, c: int, k: u64) -> Sys { put(with_rel(s, c, (s.rel)(c).union(s.th[t].vis)), t, op_sub(view(s, t), c, k, true), s.th[t].vis.union((s.rel)(c))) }
pub proof fn lemma_sys_sub_acq(s: Sys, t: int, c: int, k: u64)
    requires inv(s), 1 <= t < s.th.len(), op_sub_pre(view(s, t), c, k)
    ensures inv(sys_sub_acq(s, t, c, k)), others(s, sys_sub_acq(s, t, c, k), t)
{
    lemma_sys_sub(s, t, c, k);
    let m = sys_sub(s, t, c, k);
    let r = sys_sub_acq(s, t, c, k);
    let g = view(m, t);
    if m.th[t].seen.contains(c) {
        let a = set![c];
        lemma_sys_alone(m, t, a);
        let q = sys_alone(m, t, a);
        assert(a.map(|d: int| g.obj[d]) =~= set![g.obj[c]]) by { assert(a.contains(c)); assert(a.map(|d: int| g.obj[d]).contains(g.obj[c])); }
        assert((m.rel)(c) == (s.rel)(c).union(s.th[t].vis));
        assert(acq_of(m, t, a) =~= s.th[t].vis.union((s.rel)(c))) by {
            assert forall|e: int| acq_of(m, t, a).contains(e) <==> s.th[t].vis.union((s.rel)(c)).contains(e) by { assert(a.contains(c)); if (s.rel)(c).contains(e) { assert((m.rel)(c).contains(e)); } }
        }
        assert(q.th[t].sole =~= r.th[t].sole);
        assert(q.th[t].own =~= r.th[t].own);
        assert(q.th[t].seen =~= r.th[t].seen);
        assert(q.th =~= r.th);
        assert(q == r);
        lemma_others_trans(s, m, q, t);
    } else {
        let v = (s.rel)(c);
        lemma_learn(m, t, v);
        let q = sys_learn(m, t, v);
        assert(q.th =~= r.th);
        assert(q == r);
        lemma_others_trans(s, m, q, t);
    }
}
pub open spec fn sys_fence(s: Sys, t: int) -> Sys { put(s, t, op_fence(view(s, t)), acq_of(s, t, s.th[t].seen)) }
pub proof fn lemma_sys_fence(s: Sys, t: int)
    requires inv(s), 1 <= t < s.th.len()
    ensures inv(sys_fence(s, t)), others(s, sys_fence(s, t), t)
{
    let a = s.th[t].seen;
    lemma_sys_alone(s, t, a);
    assert(a.difference(a) =~= Set::empty());
    assert(sys_fence(s, t) == sys_alone(s, t, a));
}
// ---- steps on a counter that nobody else can reach
pub open spec fn sys_store(s: Sys, t: int, c: int, v: u64) -> Sys { put(with_rel(s, c, ISet::empty()), t, op_store(view(s, t), c, v), s.th[t].vis) }
pub open spec fn sys_new(s: Sys, t: int, c: int, v: u64) -> Sys { put(with_rel(s, c, ISet::empty()), t, op_new(view(s, t), c, v), s.th[t].vis) }
pub open spec fn sys_del_cnt(s: Sys, t: int, c: int) -> Sys { put(s, t, op_del_cnt(view(s, t), c), s.th[t].vis) }
pub open spec fn set1(a: Th, b: Th, c: int, v: int) -> bool { b.bor == a.bor && b.own == a.own && b.seen == a.seen && b.vis == a.vis && (forall|d: int| #[trigger] tm(b, d) == if d == c { v } else { tm(a, d) }) && (forall|d: int| d != c ==> (b.sole.contains(d) <==> a.sole.contains(d))) }
pub proof fn lemma_private(s: Sys, r: Sys, t: int, c: int, v: int)
    requires inv(s), 1 <= t < s.th.len(), r.th.len() == s.th.len(), forall|u: int| 0 <= u < s.th.len() && u != t ==> #[trigger] r.th[u] == s.th[u], set1(s.th[t], r.th[t], c, v), r.th == s.th.update(t, r.th[t]),
        c != 0, v >= 0, s.th[t].sole.contains(c) || !s.cnt.contains_key(c), r.live == s.live, r.obj == s.obj, r.acc == s.acc, forall|d: int| d != c ==> #[trigger] (r.rel)(d) == (s.rel)(d),
        forall|d: int| d != c ==> (#[trigger] r.cnt.contains_key(d) <==> s.cnt.contains_key(d)) && r.cnt[d] == s.cnt[d],
        r.cnt.contains_key(c) ==> r.cnt[c] == v && r.th[t].sole.contains(c), !r.cnt.contains_key(c) ==> v == 0 && !r.th[t].sole.contains(c)
    ensures inv(r), others(s, r, t)
{
    lemma_two(s); lemma_view(s, t);
    assert(forall|u: int| 0 <= u < s.th.len() ==> tm(s.th[u], c) == 0 || u == t) by {
        assert forall|u: int| 0 <= u < s.th.len() && u != t implies tm(s.th[u], c) == 0 by { if s.th[t].sole.contains(c) { assert(t1(s.th[t], c)); } else { assert(tm(s.th[u], c) >= 0); assert(tm(s.th[u], c) <= counted(s, c)); } }
    }
    assert(tm(s.th[t], c) == counted(s, c)) by { if s.th[t].sole.contains(c) { assert(t1(s.th[t], c)); } else { assert(tm(s.th[t], c) >= 0); } }
    assert forall|u: int| 0 <= u < s.th.len() implies !(#[trigger] s.th[u]).bor.contains(c) && !s.th[u].seen.contains(c) && (s.th[u].sole.contains(c) ==> u == t) by {
        if s.th[u].bor.contains(c) { assert(tm(s.th[0], c) >= 1); } if s.th[u].seen.contains(c) || s.th[u].sole.contains(c) { assert(t1(s.th[u], c)); if s.th[t].sole.contains(c) { assert(t1(s.th[t], c)); } }
    }
    assert forall|d: int| total(r.th, d) == total(s.th, d) - tm(s.th[t], d) + tm(r.th[t], d) by { lemma_total_update(s.th, t, r.th[t], d); }
    assert forall|u: int, d: int| 0 <= u < s.th.len() implies #[trigger] tm(r.th[u], d) == if u == t && d == c { v } else { tm(s.th[u], d) } by { if u == t { assert(tm(r.th[t], d) == if d == c { v } else { tm(s.th[t], d) }); } }
    assert forall|u: int, d: int| 0 <= u < s.th.len() && d != c implies (#[trigger] t1(r.th[u], d) <==> t1(s.th[u], d)) by {}
    assert forall|u: int| 0 <= u < s.th.len() implies (#[trigger] t1(r.th[u], c) <==> u == t && r.cnt.contains_key(c)) by { assert(!s.th[u].seen.contains(c)); }
    assert(inv1(r)) by {
        assert forall|u: int, d: int| #![trigger tm(r.th[u], d)] 0 <= u < r.th.len() implies tm(r.th[u], d) >= 0 by { assert(tm(s.th[u], d) >= 0); }
        assert forall|d: int| #![trigger counted(r, d)] #![trigger r.cnt.contains_key(d)] total(r.th, d) == counted(r, d) by { assert(total(s.th, d) == counted(s, d)); assert(tm(r.th[t], d) == if d == c { v } else { tm(s.th[t], d) }); assert(tm(s.th[t], d) <= counted(s, d)); }
        assert forall|u: int, d: int| #![trigger t1(r.th[u], d)] 0 <= u < r.th.len() && t1(r.th[u], d) implies r.cnt.contains_key(d) && r.cnt[d] == tm(r.th[u], d) && !(r.th[u].sole.contains(d) && r.th[u].seen.contains(d)) by {
            assert(tm(r.th[u], d) == if u == t && d == c { v } else { tm(s.th[u], d) }); if d != c { assert(t1(s.th[u], d)); assert(s.cnt.contains_key(d)); assert(r.cnt.contains_key(d) == s.cnt.contains_key(d)); } else { assert(!s.th[u].seen.contains(c)); }
        }
        assert forall|u: int, w: int, d: int| #![trigger t1(r.th[u], d), t1(r.th[w], d)] 0 <= u < r.th.len() && 0 <= w < r.th.len() && t1(r.th[u], d) && t1(r.th[w], d) implies u == w by { if d != c { assert(t1(s.th[u], d) && t1(s.th[w], d)); } }
        assert forall|u: int, d: int| #![trigger r.th[u].bor.contains(d)] 0 <= u < r.th.len() && r.th[u].bor.contains(d) implies tm(r.th[0], d) >= 1 by { assert(s.th[u].bor.contains(d)); assert(tm(r.th[0], d) == tm(s.th[0], d)); }
        assert(r.th[0] == s.th[0]);
        assert(s.cnt.contains_key(0) == r.cnt.contains_key(0));
    }
    assert forall|d: int| #[trigger] has_obj(r, d) <==> has_obj(s, d) by {
        if d == c { if has_obj(s, c) { assert(!s.th[t].sole.contains(c)); } if has_obj(r, c) { assert(!r.th[t].sole.contains(c)); } }
        else {
            if has_obj(s, d) { assert forall|u: int| 0 <= u < r.th.len() implies !(#[trigger] r.th[u]).sole.contains(d) by { assert(!s.th[u].sole.contains(d)); } }
            if has_obj(r, d) { assert(r.cnt.contains_key(d)); assert forall|u: int| 0 <= u < s.th.len() implies !(#[trigger] s.th[u]).sole.contains(d) by { assert(!r.th[u].sole.contains(d)); } }
        }
    }
    assert(!has_obj(s, c)) by { if has_obj(s, c) { assert(!s.th[t].sole.contains(c)); } }
    assert forall|d: int| #[trigger] r.cnt.contains_key(d) && r.cnt[d] == 0 implies exists|u: int| 0 <= u < s.th.len() && t1(#[trigger] r.th[u], d) by {
        if d == c { assert(t1(r.th[t], c)); } else { assert(s.cnt.contains_key(d)); let u = choose|u: int| 0 <= u < s.th.len() && t1(#[trigger] s.th[u], d); assert(t1(r.th[u], d)); }
    }
    lemma_same2b(s, r);
    assert forall|u: int, d: int, e: int| 0 <= u < s.th.len() && #[trigger] saw(s.th[u], d, e) && has_obj(r, d) implies known(r, d, e) by { assert(d != c); assert(tm(r.th[u], d) == tm(s.th[u], d)); assert(saw(r.th[u], d, e)); }
    lemma_same3(s, r);
    let h = view(s, t);
    assert forall|d: int| #![trigger r.cnt[d]] #![trigger r.cnt.contains_key(d)] !hold(h, d) && !one(h, d) && s.cnt.contains_key(d) implies r.cnt.contains_key(d) && r.cnt[d] == s.cnt[d] by { if d == c { assert(one(h, c)); } else { assert(r.cnt.contains_key(d) == s.cnt.contains_key(d)); } }
    lemma_others(s, r, t);
}
pub proof fn lemma_sys_store(s: Sys, t: int, c: int, v: u64)
    requires inv(s), 1 <= t < s.th.len(), s.th[t].sole.contains(c)
    ensures inv(sys_store(s, t, c, v)), others(s, sys_store(s, t, c, v), t)
{ assert(t1(s.th[t], c)); let r = sys_store(s, t, c, v); assert(r.th[t].sole =~= s.th[t].sole); lemma_private(s, r, t, c, v as int); }
pub proof fn lemma_sys_new(s: Sys, t: int, c: int, v: u64)
    requires inv(s), 1 <= t < s.th.len(), op_new_pre(view(s, t), c)
    ensures inv(sys_new(s, t, c, v)), others(s, sys_new(s, t, c, v), t)
{ lemma_private(s, sys_new(s, t, c, v), t, c, v as int); }
pub proof fn lemma_sys_del_cnt(s: Sys, t: int, c: int)
    requires inv(s), 1 <= t < s.th.len(), s.th[t].sole.contains(c)
    ensures inv(sys_del_cnt(s, t, c)), others(s, sys_del_cnt(s, t, c), t)
{ assert(t1(s.th[t], c)); lemma_private(s, sys_del_cnt(s, t, c), t, c, 0); }
// ---- objects
pub open spec fn with_acc(s: Sys, o: int, v: ISet<int>) -> Sys { Sys { acc: |d: int| if d == o { v } else { (s.acc)(d) }, ..s } }
pub open spec fn sys_del_obj(s: Sys, t: int, o: int) -> Sys { put(with_acc(s, o, ISet::empty()), t, op_del_obj(view(s, t), o), s.th[t].vis) }
// an object is deleted while it is alive, so once; after every access to it; and nobody is left who could reach it
pub proof fn lemma_sys_del_obj(s: Sys, t: int, o: int)
    requires inv(s), 1 <= t < s.th.len(), s.th[t].own.contains(o)
    ensures inv(sys_del_obj(s, t, o)), others(s, sys_del_obj(s, t, o), t), s.live.contains(o), (s.acc)(o).subset_of(s.th[t].vis),
        forall|u: int| 0 <= u < s.th.len() && u != t ==> !(#[trigger] s.th[u]).own.contains(o), forall|c: int| #[trigger] has_obj(s, c) ==> s.obj[c] != o
{
    let r = sys_del_obj(s, t, o);
    lemma_obj(s, r, t, o);
    assert forall|c: int| #[trigger] has_obj(s, c) implies s.obj[c] != o by { assert(!s.th[t].own.contains(s.obj[c])); }
    assert forall|u: int| 0 <= u < s.th.len() && u != t implies !(#[trigger] s.th[u]).own.contains(o) by { if s.th[u].own.contains(o) { assert(s.th[t].own.contains(o)); } }
    assert forall|e: int| (s.acc)(o).contains(e) implies s.th[t].vis.contains(e) by { assert(s.th[t].own.contains(o)); }
}
pub open spec fn sys_new_obj(s: Sys, t: int, o: int) -> Sys { put(with_acc(s, o, ISet::empty()), t, CHeap { live: s.live.insert(o), own: s.th[t].own.insert(o), ..view(s, t) }, s.th[t].vis) }
pub proof fn lemma_sys_new_obj(s: Sys, t: int, o: int)
    requires inv(s), 1 <= t < s.th.len(), o != 0, !s.live.contains(o)
    ensures inv(sys_new_obj(s, t, o)), others(s, sys_new_obj(s, t, o), t)
{ lemma_obj(s, sys_new_obj(s, t, o), t, o); }
// an object that at most this thread can reach comes or goes
pub proof fn lemma_obj(s: Sys, r: Sys, t: int, o: int)
    requires inv(s), 1 <= t < s.th.len(), s.th[t].own.contains(o) || (o != 0 && !s.live.contains(o)), r == sys_del_obj(s, t, o) || r == sys_new_obj(s, t, o)
    ensures inv(r), others(s, r, t)
{
    lemma_two(s); lemma_view(s, t);
    assert forall|d: int| total(r.th, d) == total(s.th, d) by { lemma_total_update(s.th, t, r.th[t], d); }
    assert forall|u: int, d: int| 0 <= u < s.th.len() implies #[trigger] tm(r.th[u], d) == tm(s.th[u], d) && (t1(r.th[u], d) <==> t1(s.th[u], d)) && r.th[u].bor == s.th[u].bor && r.th[u].sole == s.th[u].sole && r.th[u].seen == s.th[u].seen && r.th[u].vis == s.th[u].vis by {}
    assert forall|u: int| 0 <= u < s.th.len() implies (#[trigger] r.th[u]).sole == s.th[u].sole && r.th[u].vis == s.th[u].vis && (u != t ==> r.th[u].own == s.th[u].own) by {}
    lemma_inv1_same(s, r);
    assert forall|c: int| #[trigger] has_obj(s, c) implies s.obj[c] != o by { assert(!s.th[t].own.contains(s.obj[c])); }
    assert forall|u: int| 0 <= u < s.th.len() && u != t implies !(#[trigger] s.th[u]).own.contains(o) by { if s.th[u].own.contains(o) { assert(s.live.contains(o)); assert(s.th[t].own.contains(o)); } }
    assert forall|c: int| #[trigger] has_obj(r, c) <==> has_obj(s, c) by {
        if has_obj(s, c) { assert forall|u: int| 0 <= u < r.th.len() implies !(#[trigger] r.th[u]).sole.contains(c) by { assert(!s.th[u].sole.contains(c)); } }
        if has_obj(r, c) { assert forall|u: int| 0 <= u < s.th.len() implies !(#[trigger] s.th[u]).sole.contains(c) by { assert(!r.th[u].sole.contains(c)); } }
    }
    assert forall|u: int, p: int| #![trigger r.th[u].own.contains(p)] 0 <= u < s.th.len() && p != o implies (r.th[u].own.contains(p) <==> s.th[u].own.contains(p)) by {}
    assert(inv2(r)) by {
        assert forall|c: int, u: int| #![trigger has_obj(r, c), r.th[u]] has_obj(r, c) && 0 <= u < r.th.len() implies !r.th[u].own.contains(r.obj[c]) by { assert(has_obj(s, c)); assert(!s.th[u].own.contains(s.obj[c])); }
        assert forall|c: int| #[trigger] has_obj(r, c) implies r.obj.contains_key(c) && r.obj[c] != 0 && r.live.contains(r.obj[c]) by { assert(has_obj(s, c)); }
        assert forall|c: int, d: int| #![trigger has_obj(r, c), has_obj(r, d)] has_obj(r, c) && has_obj(r, d) && r.obj[c] == r.obj[d] implies c == d by { assert(has_obj(s, c) && has_obj(s, d)); }
        assert forall|u: int, p: int| #![trigger r.th[u].own.contains(p)] 0 <= u < r.th.len() && r.th[u].own.contains(p) implies p != 0 && r.live.contains(p) by { if p != o { assert(s.th[u].own.contains(p)); } else { assert(u == t || !s.th[u].own.contains(o)); } }
        assert forall|u: int, w: int, p: int| #![trigger r.th[u].own.contains(p), r.th[w].own.contains(p)] 0 <= u < r.th.len() && 0 <= w < r.th.len() && r.th[u].own.contains(p) && r.th[w].own.contains(p) implies u == w by {
            if p != o { assert(s.th[u].own.contains(p) && s.th[w].own.contains(p)); } else { assert(u == t || !s.th[u].own.contains(o)); assert(w == t || !s.th[w].own.contains(o)); }
        }
        assert forall|p: int| #[trigger] r.live.contains(p) implies reach(r, p) by {
            if p == o { assert(r.th[t].own.contains(o)); } else {
                assert(s.live.contains(p)); assert(reach(s, p));
                if exists|u: int| 0 <= u < s.th.len() && (#[trigger] s.th[u]).own.contains(p) { let u = choose|u: int| 0 <= u < s.th.len() && (#[trigger] s.th[u]).own.contains(p); assert(r.th[u].own.contains(p)); }
                else { let c = choose|c: int| #[trigger] has_obj(s, c) && s.obj[c] == p; assert(has_obj(r, c)); }
            }
        }
        assert forall|c: int| #[trigger] r.cnt.contains_key(c) && r.cnt[c] == 0 implies exists|u: int| 0 <= u < r.th.len() && t1(#[trigger] r.th[u], c) by {
            assert(s.cnt.contains_key(c)); let u = choose|u: int| 0 <= u < s.th.len() && t1(#[trigger] s.th[u], c); assert(tm(r.th[u], c) == tm(s.th[u], c)); assert(t1(r.th[u], c));
        }
    }
    assert(inv3(r)) by {
        assert forall|u: int, p: int, e: int| #![trigger r.th[u].own.contains(p), (r.acc)(p).contains(e)] 0 <= u < r.th.len() && r.th[u].own.contains(p) && (r.acc)(p).contains(e) implies r.th[u].vis.contains(e) by {
            assert(p != o); assert(s.th[u].own.contains(p) && (s.acc)(p).contains(e)); assert(s.th[u].vis.contains(e));
        }
        assert forall|c: int, e: int| #![trigger has_obj(r, c), (r.acc)(r.obj[c]).contains(e)] has_obj(r, c) && (r.acc)(r.obj[c]).contains(e) implies known(r, c, e) by {
            assert(has_obj(s, c) && (s.acc)(s.obj[c]).contains(e)); assert(known(s, c, e));
            if !(s.rel)(c).contains(e) { let u = choose|u: int| 0 <= u < s.th.len() && saw(#[trigger] s.th[u], c, e); assert(tm(r.th[u], c) == tm(s.th[u], c)); assert(saw(r.th[u], c, e)); }
        }
    }
    lemma_others(s, r, t);
}
// the first owner of an object is made
pub open spec fn sys_publish(s: Sys, t: int, c: int, o: int) -> Sys { put(s, t, op_publish(view(s, t), c, o), s.th[t].vis) }
pub proof fn lemma_sys_publish(s: Sys, t: int, c: int, o: int)
    requires inv(s), 1 <= t < s.th.len(), op_publish_pre(view(s, t), c, o)
    ensures inv(sys_publish(s, t, c, o)), others(s, sys_publish(s, t, c, o), t)
{
    let r = sys_publish(s, t, c, o);
    lemma_two(s); lemma_view(s, t);
    assert(t1(s.th[t], c)); assert(tm(s.th[t], c) >= 1);
    assert forall|d: int| total(r.th, d) == total(s.th, d) by { lemma_total_update(s.th, t, r.th[t], d); }
    assert forall|u: int, d: int| 0 <= u < s.th.len() implies #[trigger] tm(r.th[u], d) == tm(s.th[u], d) && r.th[u].bor == s.th[u].bor && r.th[u].seen == s.th[u].seen && r.th[u].vis == s.th[u].vis && (t1(r.th[u], d) ==> t1(s.th[u], d)) && (d != c && t1(s.th[u], d) ==> t1(r.th[u], d)) by {}
    assert forall|u: int| 0 <= u < s.th.len() && u != t implies #[trigger] r.th[u] == s.th[u] by {}
    assert(inv1(r)) by {
        assert forall|u: int, d: int| #![trigger tm(r.th[u], d)] 0 <= u < r.th.len() implies tm(r.th[u], d) >= 0 by { assert(tm(s.th[u], d) >= 0); }
        assert forall|d: int| #![trigger counted(r, d)] #![trigger r.cnt.contains_key(d)] total(r.th, d) == counted(r, d) by { assert(total(s.th, d) == counted(s, d)); }
        assert forall|u: int, d: int| #![trigger t1(r.th[u], d)] 0 <= u < r.th.len() && t1(r.th[u], d) implies r.cnt.contains_key(d) && r.cnt[d] == tm(r.th[u], d) && !(r.th[u].sole.contains(d) && r.th[u].seen.contains(d)) by { assert(tm(r.th[u], d) == tm(s.th[u], d)); assert(t1(s.th[u], d)); }
        assert forall|u: int, w: int, d: int| #![trigger t1(r.th[u], d), t1(r.th[w], d)] 0 <= u < r.th.len() && 0 <= w < r.th.len() && t1(r.th[u], d) && t1(r.th[w], d) implies u == w by { assert(tm(r.th[u], d) == tm(s.th[u], d)); assert(tm(r.th[w], d) == tm(s.th[w], d)); assert(t1(s.th[u], d) && t1(s.th[w], d)); }
        assert forall|u: int, d: int| #![trigger r.th[u].bor.contains(d)] 0 <= u < r.th.len() && r.th[u].bor.contains(d) implies tm(r.th[0], d) >= 1 by { assert(tm(r.th[u], d) == tm(s.th[u], d)); assert(s.th[u].bor.contains(d)); assert(tm(r.th[0], d) == tm(s.th[0], d)); }
        assert(r.th[0] == s.th[0]);
    }
    assert forall|d: int| #[trigger] has_obj(r, d) <==> has_obj(s, d) || d == c by {
        if has_obj(s, d) { assert forall|u: int| 0 <= u < r.th.len() implies !(#[trigger] r.th[u]).sole.contains(d) by { assert(!s.th[u].sole.contains(d)); } }
        if d == c { assert forall|u: int| 0 <= u < r.th.len() implies !(#[trigger] r.th[u]).sole.contains(c) by { if u != t && s.th[u].sole.contains(c) { assert(t1(s.th[u], c)); } } }
        if has_obj(r, d) && d != c { assert forall|u: int| 0 <= u < s.th.len() implies !(#[trigger] s.th[u]).sole.contains(d) by { assert(!r.th[u].sole.contains(d)); } }
    }
    assert(!has_obj(s, c)) by { if has_obj(s, c) { assert(!s.th[t].sole.contains(c)); } }
    assert forall|d: int| #[trigger] has_obj(s, d) implies s.obj[d] != o by { assert(!s.th[t].own.contains(s.obj[d])); }
    assert forall|u: int| 0 <= u < s.th.len() implies !(#[trigger] r.th[u]).own.contains(o) by { if u != t && s.th[u].own.contains(o) { assert(s.th[t].own.contains(o)); } }
    assert(inv2(r)) by {
        assert forall|d: int, u: int| #![trigger has_obj(r, d), r.th[u]] has_obj(r, d) && 0 <= u < r.th.len() implies !r.th[u].own.contains(r.obj[d]) by { if d != c { assert(has_obj(s, d)); assert(!s.th[u].own.contains(s.obj[d])); } }
        assert forall|d: int| #[trigger] has_obj(r, d) implies r.obj.contains_key(d) && r.obj[d] != 0 && r.live.contains(r.obj[d]) by { if d != c { assert(has_obj(s, d)); } else { assert(s.th[t].own.contains(o)); } }
        assert forall|d: int, f: int| #![trigger has_obj(r, d), has_obj(r, f)] has_obj(r, d) && has_obj(r, f) && r.obj[d] == r.obj[f] implies d == f by { if d != c { assert(has_obj(s, d)); } if f != c { assert(has_obj(s, f)); } }
        assert forall|u: int, p: int| #![trigger r.th[u].own.contains(p)] 0 <= u < r.th.len() && r.th[u].own.contains(p) implies p != 0 && r.live.contains(p) by { assert(s.th[u].own.contains(p)); }
        assert forall|u: int, w: int, p: int| #![trigger r.th[u].own.contains(p), r.th[w].own.contains(p)] 0 <= u < r.th.len() && 0 <= w < r.th.len() && r.th[u].own.contains(p) && r.th[w].own.contains(p) implies u == w by { assert(s.th[u].own.contains(p) && s.th[w].own.contains(p)); }
        assert forall|p: int| #[trigger] r.live.contains(p) implies reach(r, p) by {
            assert(reach(s, p));
            if p == o { assert(has_obj(r, c) && r.obj[c] == o); }
            else if exists|u: int| 0 <= u < s.th.len() && (#[trigger] s.th[u]).own.contains(p) { let u = choose|u: int| 0 <= u < s.th.len() && (#[trigger] s.th[u]).own.contains(p); assert(r.th[u].own.contains(p)); }
            else { let d = choose|d: int| #[trigger] has_obj(s, d) && s.obj[d] == p; assert(has_obj(r, d)); assert(d != c); assert(r.obj[d] == p); }
        }
        assert forall|d: int| #[trigger] r.cnt.contains_key(d) && r.cnt[d] == 0 implies exists|u: int| 0 <= u < r.th.len() && t1(#[trigger] r.th[u], d) by {
            assert(s.cnt.contains_key(d)); let u = choose|u: int| 0 <= u < s.th.len() && t1(#[trigger] s.th[u], d); assert(d != c); assert(tm(r.th[u], d) == tm(s.th[u], d)); assert(t1(r.th[u], d));
        }
    }
    assert(inv3(r)) by {
        assert forall|u: int, p: int, e: int| #![trigger r.th[u].own.contains(p), (r.acc)(p).contains(e)] 0 <= u < r.th.len() && r.th[u].own.contains(p) && (r.acc)(p).contains(e) implies r.th[u].vis.contains(e) by {
            assert(s.th[u].own.contains(p) && (s.acc)(p).contains(e)); assert(s.th[u].vis.contains(e)); assert(tm(r.th[u], 0) == tm(s.th[u], 0));
        }
        assert forall|d: int, e: int| #![trigger has_obj(r, d), (r.acc)(r.obj[d]).contains(e)] has_obj(r, d) && (r.acc)(r.obj[d]).contains(e) implies known(r, d, e) by {
            if d == c { assert(s.th[t].own.contains(o) && (s.acc)(o).contains(e)); assert(s.th[t].vis.contains(e)); assert(tm(r.th[t], c) == tm(s.th[t], c)); assert(saw(r.th[t], c, e)); }
            else {
                assert(has_obj(s, d) && (s.acc)(s.obj[d]).contains(e)); assert(known(s, d, e));
                if !(s.rel)(d).contains(e) { let u = choose|u: int| 0 <= u < s.th.len() && saw(#[trigger] s.th[u], d, e); assert(tm(r.th[u], d) == tm(s.th[u], d)); assert(saw(r.th[u], d, e)); }
            }
        }
    }
    lemma_others(s, r, t);
}

// ---- using an object, and owners between threads
pub open spec fn can_use(s: Sys, t: int, o: int) -> bool { s.th[t].own.contains(o) || exists|c: int| #[trigger] pub_(view(s, t), c) && hold(view(s, t), c) && s.obj[c] == o }
pub open spec fn sys_access(s: Sys, t: int, o: int, e: int) -> Sys { sys_learn(with_acc(s, o, (s.acc)(o).insert(e)), t, ISet::empty().insert(e)) }
// whatever this thread reaches through one of its pointers is alive
pub proof fn lemma_sys_access(s: Sys, t: int, o: int, e: int)
    requires inv(s), 1 <= t < s.th.len(), can_use(s, t, o)
    ensures s.live.contains(o), inv(sys_access(s, t, o, e)), others(s, sys_access(s, t, o, e), t)
{
    let v = ISet::empty().insert(e);
    let m = sys_learn(s, t, v);
    lemma_learn(s, t, v);
    lemma_two(m); lemma_view(s, t);
    let r = sys_access(s, t, o, e);
    assert(r == with_acc(m, o, (s.acc)(o).insert(e)));
    assert(m.th[t].own == s.th[t].own && m.th[t].bor == s.th[t].bor && m.th[t].mine == s.th[t].mine);
    assert(forall|c: int| has_obj(r, c) <==> has_obj(m, c));
    assert(forall|p: int| reach(r, p) <==> reach(m, p)) by {
        assert forall|p: int| reach(r, p) <==> reach(m, p) by {
            if reach(m, p) && !exists|u: int| 0 <= u < m.th.len() && (#[trigger] m.th[u]).own.contains(p) { let c = choose|c: int| #[trigger] has_obj(m, c) && m.obj[c] == p; assert(has_obj(r, c) && r.obj[c] == p); }
            if reach(r, p) && !exists|u: int| 0 <= u < r.th.len() && (#[trigger] r.th[u]).own.contains(p) { let c = choose|c: int| #[trigger] has_obj(r, c) && r.obj[c] == p; assert(has_obj(m, c) && m.obj[c] == p); }
        }
    }
    assert(inv1(r)); 
    assert(inv2(r)) by { assert forall|c: int, u: int| #![trigger has_obj(r, c), r.th[u]] has_obj(r, c) && 0 <= u < r.th.len() implies !r.th[u].own.contains(r.obj[c]) by { assert(has_obj(m, c)); assert(!m.th[u].own.contains(m.obj[c])); } }
    assert forall|u: int, p: int, f: int| #![trigger r.th[u].own.contains(p), (r.acc)(p).contains(f)] 0 <= u < r.th.len() && r.th[u].own.contains(p) && (r.acc)(p).contains(f) implies r.th[u].vis.contains(f) by {
        assert(m.th[u].own.contains(p));
        if (m.acc)(p).contains(f) { assert(m.th[u].vis.contains(f)); }
        else {
            assert(p == o && f == e);
            if u != t {
                if m.th[t].own.contains(o) {} else { let c = choose|c: int| #[trigger] pub_(view(s, t), c) && hold(view(s, t), c) && s.obj[c] == o; assert(has_obj(s, c)); assert(s.th[u].own.contains(o)); assert(!s.th[u].own.contains(s.obj[c])); }
            }
        }
    }
    assert forall|c: int, f: int| #![trigger has_obj(r, c), (r.acc)(r.obj[c]).contains(f)] has_obj(r, c) && (r.acc)(r.obj[c]).contains(f) implies known(r, c, f) by {
        assert(has_obj(m, c));
        if (m.acc)(m.obj[c]).contains(f) { assert(known(m, c, f)); if !(m.rel)(c).contains(f) { let u = choose|u: int| 0 <= u < m.th.len() && saw(#[trigger] m.th[u], c, f); assert(saw(r.th[u], c, f)); } }
        else {
            assert(r.obj[c] == o && f == e);
            assert forall|d: int| has_obj(s, d) <==> has_obj(m, d) by {
                if has_obj(s, d) { assert forall|u: int| 0 <= u < m.th.len() implies !(#[trigger] m.th[u]).sole.contains(d) by { assert(!s.th[u].sole.contains(d)); } }
                if has_obj(m, d) { assert forall|u: int| 0 <= u < s.th.len() implies !(#[trigger] s.th[u]).sole.contains(d) by { assert(!m.th[u].sole.contains(d)); } }
            }
            if s.th[t].own.contains(o) { assert(has_obj(s, c)); assert(!s.th[t].own.contains(s.obj[c])); }
            else {
                let d = choose|d: int| #[trigger] pub_(view(s, t), d) && hold(view(s, t), d) && s.obj[d] == o;
                assert(has_obj(s, d) && has_obj(s, c)); assert(c == d);
                assert(mn(view(s, t), c) == tm(s.th[t], c));
                assert(tm(r.th[t], c) == tm(s.th[t], c));
                assert(saw(r.th[t], c, e));
            }
        }
    }
    if s.th[t].own.contains(o) {} else { let d = choose|d: int| #[trigger] pub_(view(s, t), d) && hold(view(s, t), d) && s.obj[d] == o; assert(has_obj(s, d)); }
    assert forall|u: int| 1 <= u < s.th.len() && u != t implies env(#[trigger] view(s, u), view(r, u)) by { assert(env(view(s, u), view(m, u))); assert(view(r, u) == view(m, u)); }
}
// k owners of a counter move from thread t to thread u, which from then on knows what t knew (a start or end of a thread, a queue behind a mutex)
pub open spec fn sys_give(s: Sys, t: int, u: int, c: int, k: int) -> Sys {
    let a = Th { mine: s.th[t].mine.insert(c, tm(s.th[t], c) - k), ..s.th[t] };
    let b = Th { mine: s.th[u].mine.insert(c, tm(s.th[u], c) + k), vis: s.th[u].vis.union(s.th[t].vis), ..s.th[u] };
    Sys { th: s.th.update(t, a).update(u, b), ..s }
}
pub proof fn lemma_sys_give(s: Sys, t: int, u: int, c: int, k: int)
    requires inv(s), 0 <= t < s.th.len(), 0 <= u < s.th.len(), t != u, 1 <= k <= tm(s.th[t], c), !t1(s.th[t], c),
        // the owners that other threads borrow from stay where they are
        t == 0 ==> k < tm(s.th[0], c) || forall|w: int| 0 <= w < s.th.len() ==> !(#[trigger] s.th[w]).bor.contains(c)
    ensures inv(sys_give(s, t, u, c, k)), forall|w: int| 1 <= w < s.th.len() && w != t && w != u ==> env(#[trigger] view(s, w), view(sys_give(s, t, u, c, k), w))
{
    let r = sys_give(s, t, u, c, k);
    lemma_two(s);
    assert(s.cnt.contains_key(c));
    let m = s.th.update(t, r.th[t]);
    assert(r.th =~= m.update(u, r.th[u]));
    assert(m[u] == s.th[u]);
    assert forall|d: int| total(r.th, d) == total(s.th, d) by { lemma_total_update(s.th, t, r.th[t], d); lemma_total_update(m, u, r.th[u], d); }
    assert forall|w: int, d: int| 0 <= w < s.th.len() implies #[trigger] tm(r.th[w], d) == tm(s.th[w], d) + (if d == c && w == u { k } else if d == c && w == t { -k } else { 0 }) && (t1(r.th[w], d) <==> t1(s.th[w], d)) && s.th[w].vis.subset_of(r.th[w].vis) by {}
    assert forall|w: int| 0 <= w < s.th.len() implies (#[trigger] r.th[w]).bor == s.th[w].bor && r.th[w].own == s.th[w].own && r.th[w].sole == s.th[w].sole && r.th[w].seen == s.th[w].seen by {}
    assert forall|w: int| 0 <= w < s.th.len() implies !(#[trigger] t1(s.th[w], c)) by { if t1(s.th[w], c) { assert(w != t); assert(tm(s.th[t], c) == 0); } }
    assert(inv1(r)) by {
        assert forall|w: int, d: int| #![trigger tm(r.th[w], d)] 0 <= w < r.th.len() implies tm(r.th[w], d) >= 0 by { assert(tm(s.th[w], d) >= 0); }
        assert forall|d: int| #![trigger counted(r, d)] #![trigger r.cnt.contains_key(d)] total(r.th, d) == counted(r, d) by { assert(total(s.th, d) == counted(s, d)); }
        assert forall|w: int, d: int| #![trigger t1(r.th[w], d)] 0 <= w < r.th.len() && t1(r.th[w], d) implies r.cnt.contains_key(d) && r.cnt[d] == tm(r.th[w], d) && !(r.th[w].sole.contains(d) && r.th[w].seen.contains(d)) by { assert(tm(r.th[w], d) == tm(r.th[w], d)); assert(t1(s.th[w], d)); assert(d != c); }
        assert forall|w: int, x: int, d: int| #![trigger t1(r.th[w], d), t1(r.th[x], d)] 0 <= w < r.th.len() && 0 <= x < r.th.len() && t1(r.th[w], d) && t1(r.th[x], d) implies w == x by { assert(tm(r.th[w], d) == tm(r.th[w], d) && tm(r.th[x], d) == tm(r.th[x], d)); assert(t1(s.th[w], d) && t1(s.th[x], d)); }
        assert forall|w: int, d: int| #![trigger r.th[w].bor.contains(d)] 0 <= w < r.th.len() && r.th[w].bor.contains(d) implies tm(r.th[0], d) >= 1 by { assert(s.th[w].bor.contains(d)); assert(tm(s.th[0], d) >= 1); assert(tm(r.th[0], d) == tm(r.th[0], d)); }
        assert forall|d: int| #![trigger t1(r.th[0], d)] !t1(r.th[0], d) by { assert(tm(r.th[0], d) == tm(r.th[0], d)); assert(!t1(s.th[0], d)); }
        assert forall|d: int| #![trigger r.th[0].bor.contains(d)] !r.th[0].bor.contains(d) by { assert(!s.th[0].bor.contains(d)); }
        assert forall|d: int| #![trigger r.th[0].own.contains(d)] !r.th[0].own.contains(d) by { assert(!s.th[0].own.contains(d)); }
    }
    lemma_same2(s, r, t);
    assert forall|w: int, d: int, e: int| 0 <= w < s.th.len() && #[trigger] saw(s.th[w], d, e) implies known(r, d, e) by {
        assert(tm(r.th[w], d) == tm(r.th[w], d));
        if w == t && d == c { assert(r.th[u].vis.contains(e)); assert(tm(s.th[u], c) >= 0); assert(tm(r.th[u], c) >= 1); assert(saw(r.th[u], c, e)); } else { assert(saw(r.th[w], d, e)); }
    }
    assert forall|w: int| 0 <= w < s.th.len() implies s.th[w].vis.subset_of(#[trigger] r.th[w].vis) by { assert(tm(r.th[w], c) == tm(r.th[w], c)); }
    lemma_same3(s, r);
    assert forall|w: int| 1 <= w < s.th.len() && w != t && w != u implies env(#[trigger] view(s, w), view(r, w)) by { assert(r.th[w] == s.th[w]); lemma_view(s, w); assert(view(r, w) == view(s, w)); }
}
// thread u may use a counter of which an owner stays in the pool, until it gives it back (the pool then knows what u did)
pub open spec fn sys_borrow(s: Sys, u: int, c: int) -> Sys { Sys { th: s.th.update(u, Th { bor: s.th[u].bor.insert(c), ..s.th[u] }), ..s } }
pub open spec fn sys_back(s: Sys, u: int, c: int) -> Sys {
    let m = sys_learn(s, 0, s.th[u].vis);
    Sys { th: m.th.update(u, Th { bor: m.th[u].bor.remove(c), ..m.th[u] }), ..m }
}
pub proof fn lemma_bor(s: Sys, r: Sys, u: int, c: int)
    requires inv(s), 1 <= u < s.th.len(), tm(s.th[0], c) >= 1, r == sys_borrow(s, u, c) || (s.th[u].vis.subset_of(s.th[0].vis) && r == (Sys { th: s.th.update(u, Th { bor: s.th[u].bor.remove(c), ..s.th[u] }), ..s }))
    ensures inv(r), others(s, r, u)
{
    lemma_two(s);
    assert forall|d: int| total(r.th, d) == total(s.th, d) by { lemma_total_update(s.th, u, r.th[u], d); }
    assert forall|w: int, d: int| 0 <= w < s.th.len() implies #[trigger] tm(r.th[w], d) == tm(s.th[w], d) && (t1(r.th[w], d) <==> t1(s.th[w], d)) by {}
    assert forall|w: int| 0 <= w < s.th.len() implies (#[trigger] r.th[w]).own == s.th[w].own && r.th[w].sole == s.th[w].sole && r.th[w].seen == s.th[w].seen && r.th[w].vis == s.th[w].vis && (w != u ==> r.th[w].bor == s.th[w].bor) by {}
    assert(inv1(r)) by {
        assert forall|w: int, d: int| #![trigger tm(r.th[w], d)] 0 <= w < r.th.len() implies tm(r.th[w], d) >= 0 by { assert(tm(s.th[w], d) >= 0); }
        assert forall|d: int| #![trigger counted(r, d)] #![trigger r.cnt.contains_key(d)] total(r.th, d) == counted(r, d) by { assert(total(s.th, d) == counted(s, d)); }
        assert forall|w: int, d: int| #![trigger t1(r.th[w], d)] 0 <= w < r.th.len() && t1(r.th[w], d) implies r.cnt.contains_key(d) && r.cnt[d] == tm(r.th[w], d) && !(r.th[w].sole.contains(d) && r.th[w].seen.contains(d)) by { assert(tm(r.th[w], d) == tm(s.th[w], d)); assert(t1(s.th[w], d)); }
        assert forall|w: int, x: int, d: int| #![trigger t1(r.th[w], d), t1(r.th[x], d)] 0 <= w < r.th.len() && 0 <= x < r.th.len() && t1(r.th[w], d) && t1(r.th[x], d) implies w == x by { assert(tm(r.th[w], d) == tm(s.th[w], d) && tm(r.th[x], d) == tm(s.th[x], d)); assert(t1(s.th[w], d) && t1(s.th[x], d)); }
        assert forall|w: int, d: int| #![trigger r.th[w].bor.contains(d)] 0 <= w < r.th.len() && r.th[w].bor.contains(d) implies tm(r.th[0], d) >= 1 by { assert(tm(r.th[0], d) == tm(s.th[0], d)); if d != c { assert(s.th[w].bor.contains(d)); } }
        assert(r.th[0] == s.th[0]);
    }
    lemma_same2(s, r, u);
    assert forall|w: int, d: int, e: int| 0 <= w < s.th.len() && #[trigger] saw(s.th[w], d, e) implies known(r, d, e) by {
        assert(tm(r.th[w], d) == tm(s.th[w], d));
        if w == u && d == c && !r.th[u].bor.contains(c) { assert(tm(r.th[0], c) == tm(s.th[0], c)); assert(r.th[0].vis.contains(e)); assert(saw(r.th[0], c, e)); } else { assert(saw(r.th[w], d, e)); }
    }
    lemma_same3(s, r);
    assert forall|w: int| 1 <= w < s.th.len() && w != u implies env(#[trigger] view(s, w), view(r, w)) by { assert(r.th[w] == s.th[w]); lemma_view(s, w); assert(view(r, w) == view(s, w)); }
}
pub proof fn lemma_sys_borrow(s: Sys, u: int, c: int)
    requires inv(s), 1 <= u < s.th.len(), tm(s.th[0], c) >= 1
    ensures inv(sys_borrow(s, u, c)), others(s, sys_borrow(s, u, c), u), inv(sys_back(s, u, c)), others(s, sys_back(s, u, c), u)
{
    lemma_bor(s, sys_borrow(s, u, c), u, c);
    let m = sys_learn(s, 0, s.th[u].vis);
    lemma_learn(s, 0, s.th[u].vis);
    assert(m.th[u] == s.th[u]);
    lemma_bor(m, sys_back(s, u, c), u, c);
    assert forall|w: int| 1 <= w < s.th.len() && w != u implies env(#[trigger] view(s, w), view(m, w)) by {}
    lemma_others_trans(s, m, sys_back(s, u, c), u);
}
// how it starts
pub proof fn lemma_sys_init(n: nat)
    requires n >= 1
    ensures ({ let z = Th { mine: Map::empty(), bor: Set::empty(), own: Set::empty(), sole: Set::empty(), seen: Set::empty(), vis: ISet::empty() };
        inv(Sys { live: Set::empty(), cnt: Map::empty(), obj: Map::empty(), th: Seq::new(n, |i: int| z), acc: |o: int| ISet::empty(), rel: |c: int| ISet::empty() }) })
{
    let z = Th { mine: Map::empty(), bor: Set::empty(), own: Set::empty(), sole: Set::empty(), seen: Set::empty(), vis: ISet::empty() };
    let s = Sys { live: Set::empty(), cnt: Map::empty(), obj: Map::empty(), th: Seq::new(n, |i: int| z), acc: |o: int| ISet::empty(), rel: |c: int| ISet::empty() };
    assert forall|c: int| #[trigger] total(s.th, c) == 0 by { lemma_total_zero(s.th, c); }
}
pub proof fn lemma_total_zero(th: Seq<Th>, c: int)
    requires forall|t: int| 0 <= t < th.len() ==> (#[trigger] th[t]).mine == Map::<int, int>::empty()
    ensures total(th, c) == 0
    decreases th.len()
{ if th.len() > 0 { assert forall|t: int| 0 <= t < th.len() - 1 implies (#[trigger] th.drop_last()[t]).mine == Map::<int, int>::empty() by { assert(th.drop_last()[t] == th[t]); } lemma_total_zero(th.drop_last(), c); assert(th.last() == th[th.len() - 1]); } }
