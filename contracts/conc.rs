// ---- shared ownership between threads: what one thread knows of the heap (a thread-local view of the whole system, see concsys.rs)
// live/cnt/obj are shared and change under its hands; the rest is its own
#[verifier::ext_equal]
pub struct CHeap {
    pub live: Set<int>,             // objects alive
    pub cnt: Map<int, u64>,         // counters alive and their values
    pub obj: Map<int, int>,         // the object whose owners a counter counts
    pub mine: Map<int, int>,        // owners (per counter) that this thread holds
    pub bor: Set<int>,              // counters with an owner elsewhere that stays while this thread uses it
    pub own: Set<int>,              // objects that only this thread can reach
    pub sole: Set<int>,             // counters that only this thread can reach, and it has synchronised with all former owners
    pub seen: Set<int>,             // the same, not yet synchronised
}
pub open spec fn mn(h: CHeap, c: int) -> int { if h.mine.contains_key(c) { h.mine[c] } else { 0 } }
pub open spec fn hold(h: CHeap, c: int) -> bool { mn(h, c) >= 1 || h.bor.contains(c) }
pub open spec fn one(h: CHeap, c: int) -> bool { h.sole.contains(c) || h.seen.contains(c) }
// its counter counts the owners of an object
pub open spec fn pub_(h: CHeap, c: int) -> bool { hold(h, c) && !h.sole.contains(c) || h.seen.contains(c) }
pub open spec fn cwf(h: CHeap) -> bool {
    &&& forall|c: int| #![trigger h.cnt.contains_key(c)] #![trigger mn(h, c)] #![trigger h.bor.contains(c)] hold(h, c) || one(h, c) ==> c != 0 && h.cnt.contains_key(c)
    &&& forall|c: int| #![trigger mn(h, c)] mn(h, c) >= 0 && (mn(h, c) > 0 ==> h.cnt[c] >= mn(h, c)) && (h.bor.contains(c) ==> h.cnt[c] >= mn(h, c) + 1)
    &&& forall|c: int| #![trigger one(h, c)] #![trigger h.sole.contains(c)] #![trigger h.seen.contains(c)] one(h, c) ==> h.cnt[c] == mn(h, c) && !h.bor.contains(c)
    &&& forall|c: int| #![trigger h.obj.contains_key(c)] #![trigger h.obj[c]] pub_(h, c) ==> h.obj.contains_key(c) && h.obj[c] != 0 && h.live.contains(h.obj[c]) && !h.own.contains(h.obj[c])
    &&& forall|c: int, d: int| #![trigger h.obj[c], h.obj[d]] pub_(h, c) && pub_(h, d) && h.obj[c] == h.obj[d] ==> c == d
    &&& forall|c: int| #![trigger h.sole.contains(c)] !(h.sole.contains(c) && h.seen.contains(c))
    &&& forall|o: int| #![trigger h.own.contains(o)] h.own.contains(o) ==> o != 0 && h.live.contains(o)
}
// what other threads may do in between
pub open spec fn env(h: CHeap, g: CHeap) -> bool {
    &&& g.mine == h.mine && g.bor == h.bor && g.own == h.own && g.sole == h.sole && g.seen == h.seen
    &&& cwf(g)
    &&& forall|c: int| #![trigger g.obj[c]] #![trigger h.obj[c]] pub_(h, c) ==> g.obj[c] == h.obj[c]
    &&& forall|c: int| #![trigger one(h, c)] #![trigger g.cnt[c]] one(h, c) ==> g.cnt.contains_key(c) && g.cnt[c] == h.cnt[c]
}
// ---- the steps of one thread
pub open spec fn op_add_pre(h: CHeap, c: int, k: u64) -> bool { hold(h, c) || h.sole.contains(c) }
pub open spec fn op_add(h: CHeap, c: int, k: u64) -> CHeap { CHeap { cnt: h.cnt.insert(c, (h.cnt[c] + k) as u64), mine: h.mine.insert(c, mn(h, c) + k), ..h } }
// letting go of owners: everything done with the object so far is published (release), and who is left alone needs to have seen it (acquire)
pub open spec fn op_sub_pre(h: CHeap, c: int, k: u64) -> bool { mn(h, c) >= k && k >= 1 && !h.seen.contains(c) }
pub open spec fn op_sub(h: CHeap, c: int, k: u64, acq: bool) -> CHeap {
    let g = CHeap { cnt: h.cnt.insert(c, (h.cnt[c] - k) as u64), mine: h.mine.insert(c, mn(h, c) - k), ..h };
    if h.sole.contains(c) || g.cnt[c] != 0 { g }
    else if acq { op_alone(g, c) }
    else { CHeap { seen: g.seen.insert(c), ..g } }
}
pub open spec fn op_alone(h: CHeap, c: int) -> CHeap { CHeap { sole: h.sole.insert(c), seen: h.seen.remove(c), own: h.own.insert(h.obj[c]), ..h } }
// acquire fence
pub open spec fn op_fence(h: CHeap) -> CHeap {
    CHeap { sole: h.sole.union(h.seen), seen: Set::empty(), own: h.own.union(h.seen.map(|c: int| h.obj[c])), ..h }
}
pub open spec fn op_store(h: CHeap, c: int, v: u64) -> CHeap { CHeap { cnt: h.cnt.insert(c, v), mine: h.mine.insert(c, v as int), ..h } }
pub open spec fn op_new_pre(h: CHeap, c: int) -> bool { c != 0 && !h.cnt.contains_key(c) }
pub open spec fn op_new(h: CHeap, c: int, v: u64) -> CHeap { CHeap { cnt: h.cnt.insert(c, v), mine: h.mine.insert(c, v as int), sole: h.sole.insert(c), ..h } }
pub open spec fn op_del_cnt(h: CHeap, c: int) -> CHeap { CHeap { cnt: h.cnt.remove(c), mine: h.mine.remove(c), sole: h.sole.remove(c), ..h } }
pub open spec fn op_del_obj(h: CHeap, o: int) -> CHeap { CHeap { live: h.live.remove(o), own: h.own.remove(o), ..h } }
// the first owner of an object is made: from here on other threads may become owners
pub open spec fn op_publish_pre(h: CHeap, c: int, o: int) -> bool { h.sole.contains(c) && mn(h, c) >= 1 && h.own.contains(o) }
pub open spec fn op_publish(h: CHeap, c: int, o: int) -> CHeap { CHeap { obj: h.obj.insert(c, o), sole: h.sole.remove(c), own: h.own.remove(o), ..h } }
// ---- every step keeps what the thread relies on
pub proof fn lemma_add(h: CHeap, c: int, k: u64) requires cwf(h), op_add_pre(h, c, k), h.cnt[c] + k <= u64::MAX ensures cwf(op_add(h, c, k))
{
    let g = op_add(h, c, k);
    assert forall|d: int| mn(g, d) == mn(h, d) + (if d == c { k as int } else { 0 }) by {}
    assert(h.cnt.contains_key(c));
    assert(mn(h, c) >= 0);
}
pub proof fn lemma_sub(h: CHeap, c: int, k: u64, acq: bool) requires cwf(h), op_sub_pre(h, c, k) ensures cwf(op_sub(h, c, k, acq))
{
    let g = op_sub(h, c, k, acq);
    assert(h.cnt.contains_key(c) && mn(h, c) <= h.cnt[c]);
    assert forall|d: int| mn(g, d) == mn(h, d) - (if d == c { k as int } else { 0 }) by {}
    assert forall|d: int| #[trigger] hold(g, d) implies hold(h, d) by { assert(mn(g, d) <= mn(h, d)); }
    assert forall|d: int| #[trigger] pub_(g, d) implies pub_(h, d) by { assert(mn(g, d) <= mn(h, d)); }
    assert(pub_(h, c) || h.sole.contains(c));
    assert forall|d: int| mn(g, d) >= 0 by { assert(mn(h, d) >= 0); }
}
pub proof fn lemma_fence(h: CHeap) requires cwf(h) ensures cwf(op_fence(h)), forall|c: int| #[trigger] h.seen.contains(c) && h.seen =~= set![c] ==> op_fence(h) =~= op_alone(h, c)
{
    assert forall|c: int| #[trigger] h.seen.contains(c) && h.seen =~= set![c] implies op_fence(h) =~= op_alone(h, c) by { assert(h.seen.map(|d: int| h.obj[d]) =~= set![h.obj[c]]) by { assert(h.seen.map(|d: int| h.obj[d]).contains(h.obj[c])); } }
    let g = op_fence(h);
    assert forall|d: int| mn(g, d) == mn(h, d) by {}
    assert forall|d: int| #[trigger] pub_(g, d) implies pub_(h, d) && !h.seen.contains(d) by {}
    assert forall|o: int| #[trigger] g.own.contains(o) implies h.own.contains(o) || exists|c: int| h.seen.contains(c) && h.obj[c] == o by {}
}
pub proof fn lemma_store(h: CHeap, c: int, v: u64) requires cwf(h), h.sole.contains(c) ensures cwf(op_store(h, c, v))
{ let g = op_store(h, c, v); assert forall|d: int| mn(g, d) == if d == c { v as int } else { mn(h, d) } by {} assert(h.cnt.contains_key(c)); }
pub proof fn lemma_new(h: CHeap, c: int, v: u64) requires cwf(h), op_new_pre(h, c) ensures cwf(op_new(h, c, v)), !hold(h, c) && !one(h, c)
{ let g = op_new(h, c, v); assert forall|d: int| mn(g, d) == if d == c { v as int } else { mn(h, d) } by {} assert(!hold(h, c) && !one(h, c)); }
pub proof fn lemma_del_cnt(h: CHeap, c: int) requires cwf(h), h.sole.contains(c) ensures cwf(op_del_cnt(h, c))
{ let g = op_del_cnt(h, c); assert forall|d: int| mn(g, d) == if d == c { 0 } else { mn(h, d) } by {} }
pub proof fn lemma_del_obj(h: CHeap, o: int) requires cwf(h), h.own.contains(o) ensures cwf(op_del_obj(h, o))
{ let g = op_del_obj(h, o); assert forall|d: int| mn(g, d) == mn(h, d) by {} }
pub proof fn lemma_publish(h: CHeap, c: int, o: int) requires cwf(h), op_publish_pre(h, c, o) ensures cwf(op_publish(h, c, o))
{
    let g = op_publish(h, c, o);
    assert forall|d: int| mn(g, d) == mn(h, d) by {}
    assert forall|d: int| pub_(h, d) implies #[trigger] h.obj[d] != o by {}
}
