// ---- one smart pointer
pub open spec fn sp_null(p: Sp) -> bool { p.data_ == 0 && p.ref_count_ == 0 }
// an owner: its object and its counter are alive and the counter says that there is an owner
pub open spec fn sp_ok(p: Sp, h: Heap) -> bool {
    (p.data_ == 0 <==> p.ref_count_ == 0) && (p.data_ != 0 ==> h.live.contains(p.data_) && h.cnt.contains_key(p.ref_count_) && h.cnt[p.ref_count_] >= 1)
}
pub open spec fn sp_room(p: Sp, h: Heap) -> bool { p.ref_count_ != 0 ==> h.cnt[p.ref_count_] < u64::MAX }
// two different smart pointers: those that share are both counted, and those that do not share own different objects
pub open spec fn sp_two(p: Sp, q: Sp, h: Heap) -> bool {
    p.ref_count_ != 0 && q.ref_count_ != 0 ==> (p.data_ == q.data_ <==> p.ref_count_ == q.ref_count_) && (p.ref_count_ == q.ref_count_ ==> h.cnt[p.ref_count_] >= 2)
}
pub open spec fn sp_share(h: Heap, p: Sp) -> Heap { if p.ref_count_ == 0 { h } else { heap_set_cnt(h, p.ref_count_, u64_wrap(h.cnt[p.ref_count_] + 1)) } }
// one owner less: the last one takes the object and the counter along
pub open spec fn sp_drop(h: Heap, p: Sp) -> Heap {
    if p.ref_count_ == 0 { h }
    else if h.cnt[p.ref_count_] == 1 { Heap { live: h.live.remove(p.data_), cnt: h.cnt.remove(p.ref_count_) } }
    else { heap_set_cnt(h, p.ref_count_, u64_wrap(h.cnt[p.ref_count_] - 1)) }
}
// the object at `inner` was deleted in between
pub open spec fn gone(h: Heap, h1: Heap, inner: int) -> bool { inner != 0 && h.live.contains(inner) && !h1.live.contains(inner) }
// copy assignment: `other` is shared, what was held is let go; if that takes along the object holding `other`, it too lets go
pub open spec fn sp_taken(p: Sp, other: Sp, h: Heap, inner: int) -> Heap {
    let d = sp_drop(sp_share(h, other), p);
    if gone(h, d, inner) { sp_drop(d, other) } else { d }
}
// a new owner of the object at `data`, with a counter of its own
pub open spec fn sp_made(h: Heap, h1: Heap, p: Sp, data: int) -> bool {
    p.data_ == data && (data == 0 <==> p.ref_count_ == 0) && (data == 0 ==> heap_eq(h1, h))
    && (data != 0 ==> !h.cnt.contains_key(p.ref_count_) && heap_eq(h1, heap_set_cnt(h, p.ref_count_, 1)))
}
pub open spec fn sp_reset(p: Sp, h: Heap, p1: Sp, h1: Heap, data: int) -> bool {
    if p.data_ == data { p1 == p && heap_eq(h1, h) } else { sp_made(sp_drop(h, p), h1, p1, data) }
}
pub open spec fn up_ok(p: Up, h: Heap) -> bool { p.data_ != 0 ==> h.live.contains(p.data_) }
pub open spec fn rp_ok(p: Rp, h: Heap) -> bool { p.data_ != 0 ==> h.live.contains(p.data_) }
pub open spec fn up_two(p: Up, q: Up) -> bool { p.data_ != 0 ==> p.data_ != q.data_ }
pub open spec fn up_reset(p: Up, h: Heap, p1: Up, h1: Heap, data: int) -> bool {
    p1.data_ == data && (if p.data_ == data { heap_eq(h1, h) } else { heap_eq(h1, heap_del_live(h, p.data_)) })
}

// ---- every set of smart pointers sharing objects: the counters count the owners, owned objects are alive
pub open spec fn owners(s: Seq<Sp>, c: int) -> int decreases s.len() { if s.len() == 0 { 0 } else { owners(s.drop_last(), c) + (if s.last().ref_count_ == c { 1int } else { 0 }) } }
pub open spec fn ptr_inv(s: Seq<Sp>, u: Seq<Up>, h: Heap) -> bool {
    &&& s.len() < u64::MAX
    &&& forall|i: int| 0 <= i < s.len() ==> ((#[trigger] s[i]).data_ == 0 <==> s[i].ref_count_ == 0)
        && (s[i].ref_count_ != 0 ==> h.live.contains(s[i].data_) && h.cnt.contains_key(s[i].ref_count_) && h.cnt[s[i].ref_count_] == owners(s, s[i].ref_count_))
    &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && (#[trigger] s[i]).ref_count_ != 0 && (#[trigger] s[j]).ref_count_ != 0 ==> (s[i].data_ == s[j].data_ <==> s[i].ref_count_ == s[j].ref_count_)
    &&& forall|c: int| #[trigger] h.cnt.contains_key(c) ==> c != 0 && owners(s, c) >= 1
    &&& forall|i: int| 0 <= i < u.len() && (#[trigger] u[i]).data_ != 0 ==> h.live.contains(u[i].data_)
    &&& forall|i: int, j: int| 0 <= i < u.len() && 0 <= j < u.len() && i != j && (#[trigger] u[i]).data_ != 0 ==> u[i].data_ != (#[trigger] u[j]).data_
    &&& forall|i: int, j: int| 0 <= i < u.len() && 0 <= j < s.len() && (#[trigger] u[i]).data_ != 0 ==> u[i].data_ != (#[trigger] s[j]).data_
}
pub open spec fn sp_nil() -> Sp { XSharedPtr_Caitlyn_VpObj { data_: 0, ref_count_: 0 } }
pub open spec fn up_at(d: int) -> Up { XUniquePtr_Caitlyn_VpObj { data_: d } }
pub open spec fn owned(s: Seq<Sp>, u: Seq<Up>, d: int) -> bool { (exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).data_ == d) || (exists|i: int| 0 <= i < u.len() && (#[trigger] u[i]).data_ == d) }

pub proof fn lemma_owners_bound(s: Seq<Sp>, c: int) ensures 0 <= owners(s, c) <= s.len() decreases s.len() { if s.len() > 0 { lemma_owners_bound(s.drop_last(), c); } }
pub proof fn lemma_owners_update(s: Seq<Sp>, i: int, p: Sp, c: int)
    requires 0 <= i < s.len()
    ensures owners(s.update(i, p), c) == owners(s, c) - (if s[i].ref_count_ == c { 1int } else { 0 }) + (if p.ref_count_ == c { 1int } else { 0 })
    decreases s.len()
{
    if i == s.len() - 1 { assert(s.update(i, p).drop_last() =~= s.drop_last()); }
    else { assert(s.update(i, p).drop_last() =~= s.drop_last().update(i, p)); lemma_owners_update(s.drop_last(), i, p, c); }
}
pub proof fn lemma_owners_some(s: Seq<Sp>, c: int) -> (k: int)
    requires owners(s, c) >= 1
    ensures 0 <= k < s.len() && s[k].ref_count_ == c
    decreases s.len()
{
    if s.last().ref_count_ == c { s.len() - 1 } else { let k = lemma_owners_some(s.drop_last(), c); k }
}
// what every operation requires of its operands holds of every set of smart pointers
pub proof fn lemma_ptr_pre(s: Seq<Sp>, u: Seq<Up>, h: Heap)
    requires ptr_inv(s, u, h)
    ensures forall|i: int| 0 <= i < s.len() ==> sp_ok(#[trigger] s[i], h) && sp_room(s[i], h),
        forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j ==> sp_two(#[trigger] s[i], #[trigger] s[j], h),
        forall|i: int| 0 <= i < u.len() ==> up_ok(#[trigger] u[i], h),
        forall|i: int, j: int| 0 <= i < u.len() && 0 <= j < u.len() && i != j ==> up_two(#[trigger] u[i], #[trigger] u[j]),
{
    assert forall|i: int| 0 <= i < s.len() implies sp_ok(#[trigger] s[i], h) && sp_room(s[i], h) by {
        lemma_owners_bound(s, s[i].ref_count_);
        if s[i].ref_count_ != 0 { lemma_owners_update(s, i, sp_nil(), s[i].ref_count_); lemma_owners_bound(s.update(i, sp_nil()), s[i].ref_count_); }
    }
    assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies sp_two(#[trigger] s[i], #[trigger] s[j], h) by {
        let c = s[i].ref_count_;
        if c != 0 && s[j].ref_count_ == c {
            let t = s.update(i, sp_nil());
            lemma_owners_update(s, i, sp_nil(), c);
            lemma_owners_update(t, j, sp_nil(), c);
            lemma_owners_bound(t.update(j, sp_nil()), c);
        }
    }
}
// a smart pointer that is null already, or was moved from: nothing is owned and nothing alive is lost
pub proof fn lemma_ptr_init(s: Seq<Sp>, u: Seq<Up>, h: Heap)
    requires s.len() < u64::MAX, h.cnt =~= Map::<int, u64>::empty(), forall|i: int| 0 <= i < s.len() ==> sp_null(#[trigger] s[i]), forall|i: int| 0 <= i < u.len() ==> (#[trigger] u[i]).data_ == 0
    ensures ptr_inv(s, u, h)
{}
// an owner lets go: the object is deleted exactly when no other owner is left
pub proof fn lemma_ptr_drop(s: Seq<Sp>, u: Seq<Up>, h: Heap, i: int, h1: Heap)
    requires ptr_inv(s, u, h), 0 <= i < s.len(), heap_eq(h1, sp_drop(h, s[i]))
    ensures ptr_inv(s.update(i, sp_nil()), u, h1),
        s[i].data_ != 0 && !owned(s.update(i, sp_nil()), u, s[i].data_) ==> h1.live =~= h.live.remove(s[i].data_),
        s[i].data_ == 0 || owned(s.update(i, sp_nil()), u, s[i].data_) ==> h1.live =~= h.live
{
    let t = s.update(i, sp_nil());
    let c = s[i].ref_count_;
    lemma_ptr_pre(s, u, h);
    assert(h1 == sp_drop(h, s[i]));
    assert(sp_ok(s[i], h));
    assert forall|e: int| owners(t, e) == owners(s, e) - (if c == e { 1int } else { 0 }) + (if e == 0 { 1int } else { 0 }) by { lemma_owners_update(s, i, sp_nil(), e); }
    if c != 0 {
        lemma_owners_bound(t, c);
        if h.cnt[c] == 1 {
            assert(owners(t, c) == 0);
            assert forall|j: int| 0 <= j < t.len() implies (#[trigger] t[j]).ref_count_ != c by {
                if t[j].ref_count_ == c { lemma_owners_update(t, j, sp_nil(), c); lemma_owners_bound(t.update(j, sp_nil()), c); }
            }
            assert forall|j: int| 0 <= j < t.len() implies (#[trigger] t[j]).data_ != s[i].data_ by { if j != i { assert(t[j] == s[j]); } }
            assert(!owned(t, u, s[i].data_));
        } else {
            let k = lemma_owners_some(t, c);
            assert(k != i && t[k] == s[k]);
            assert(s[k].data_ == s[i].data_);
            assert(owned(t, u, s[i].data_));
        }
    } else {
        assert(t =~= s);
    }
    assert forall|j: int| 0 <= j < t.len() implies ((#[trigger] t[j]).data_ == 0 <==> t[j].ref_count_ == 0)
        && (t[j].ref_count_ != 0 ==> h1.live.contains(t[j].data_) && h1.cnt.contains_key(t[j].ref_count_) && h1.cnt[t[j].ref_count_] == owners(t, t[j].ref_count_)) by
    { if j != i { assert(t[j] == s[j]); } }
    assert forall|e: int| #[trigger] h1.cnt.contains_key(e) implies e != 0 && owners(t, e) >= 1 by { assert(h.cnt.contains_key(e)); assert(owners(t, e) == owners(s, e) - (if c == e { 1int } else { 0 })); }
}
// a null smart pointer becomes another owner of what s[i] owns: nothing is deleted
pub proof fn lemma_ptr_share(s: Seq<Sp>, u: Seq<Up>, h: Heap, i: int, j: int, h1: Heap)
    requires ptr_inv(s, u, h), 0 <= i < s.len(), 0 <= j < s.len(), sp_null(s[j]), heap_eq(h1, sp_share(h, s[i]))
    ensures ptr_inv(s.update(j, s[i]), u, h1), h1.live =~= h.live
{
    let t = s.update(j, s[i]);
    let c = s[i].ref_count_;
    lemma_ptr_pre(s, u, h);
    assert(h1 == sp_share(h, s[i]));
    assert(sp_ok(s[i], h) && sp_room(s[i], h));
    assert forall|e: int| owners(t, e) == owners(s, e) - (if e == 0 { 1int } else { 0 }) + (if e == c { 1int } else { 0 }) by { lemma_owners_update(s, j, s[i], e); }
    assert forall|k: int| 0 <= k < t.len() implies ((#[trigger] t[k]).data_ == 0 <==> t[k].ref_count_ == 0)
        && (t[k].ref_count_ != 0 ==> h1.live.contains(t[k].data_) && h1.cnt.contains_key(t[k].ref_count_) && h1.cnt[t[k].ref_count_] == owners(t, t[k].ref_count_)) by
    { if k != j { assert(t[k] == s[k]); } }
    assert forall|k: int, l: int| 0 <= k < t.len() && 0 <= l < t.len() && (#[trigger] t[k]).ref_count_ != 0 && (#[trigger] t[l]).ref_count_ != 0 implies (t[k].data_ == t[l].data_ <==> t[k].ref_count_ == t[l].ref_count_) by
    { let a = if k == j { i } else { k }; let b = if l == j { i } else { l }; assert(t[k] == s[a] && t[l] == s[b]); }
    assert forall|k: int, l: int| 0 <= k < u.len() && 0 <= l < t.len() && (#[trigger] u[k]).data_ != 0 implies u[k].data_ != (#[trigger] t[l]).data_ by
    { let b = if l == j { i } else { l }; assert(t[l] == s[b]); }
    assert forall|e: int| #[trigger] h1.cnt.contains_key(e) implies e != 0 && owners(t, e) >= 1 by { assert(h.cnt.contains_key(e)); assert(owners(t, e) == owners(s, e) + (if e == c { 1int } else { 0 })); }
}
// ownership moves from s[i] to the null s[j]
pub proof fn lemma_ptr_move(s: Seq<Sp>, u: Seq<Up>, h: Heap, i: int, j: int)
    requires ptr_inv(s, u, h), 0 <= i < s.len(), 0 <= j < s.len(), i != j, sp_null(s[j])
    ensures ptr_inv(s.update(j, s[i]).update(i, sp_nil()), u, h)
{
    let t = s.update(j, s[i]).update(i, sp_nil());
    assert forall|e: int| owners(t, e) == owners(s, e) by { lemma_owners_update(s, j, s[i], e); lemma_owners_update(s.update(j, s[i]), i, sp_nil(), e); }
    assert forall|k: int| 0 <= k < t.len() implies t[k] == s[if k == j { i } else if k == i { j } else { k }] by {}
    assert forall|e: int| #[trigger] h.cnt.contains_key(e) implies e != 0 && owners(t, e) >= 1 by { assert(owners(t, e) == owners(s, e)); }
    assert forall|k: int| 0 <= k < t.len() implies ((#[trigger] t[k]).data_ == 0 <==> t[k].ref_count_ == 0)
        && (t[k].ref_count_ != 0 ==> h.live.contains(t[k].data_) && h.cnt.contains_key(t[k].ref_count_) && h.cnt[t[k].ref_count_] == owners(t, t[k].ref_count_)) by
    { assert(t[k] == s[if k == j { i } else if k == i { j } else { k }]); assert(owners(t, t[k].ref_count_) == owners(s, t[k].ref_count_)); }
    assert forall|k: int, l: int| 0 <= k < t.len() && 0 <= l < t.len() && (#[trigger] t[k]).ref_count_ != 0 && (#[trigger] t[l]).ref_count_ != 0 implies (t[k].data_ == t[l].data_ <==> t[k].ref_count_ == t[l].ref_count_) by
    { assert(t[k] == s[if k == j { i } else if k == i { j } else { k }]); assert(t[l] == s[if l == j { i } else if l == i { j } else { l }]); }
    assert forall|k: int, l: int| 0 <= k < u.len() && 0 <= l < t.len() && (#[trigger] u[k]).data_ != 0 implies u[k].data_ != (#[trigger] t[l]).data_ by
    { assert(t[l] == s[if l == j { i } else if l == i { j } else { l }]); }
}
// the null s[j] takes over an object nobody owns
pub proof fn lemma_ptr_made(s: Seq<Sp>, u: Seq<Up>, h: Heap, j: int, p: Sp, data: int, h1: Heap)
    requires ptr_inv(s, u, h), 0 <= j < s.len(), sp_null(s[j]), sp_made(h, h1, p, data), data != 0 ==> h.live.contains(data) && !owned(s, u, data)
    ensures ptr_inv(s.update(j, p), u, h1), h1.live =~= h.live
{
    let t = s.update(j, p);
    let c = p.ref_count_;
    if data == 0 { assert(t =~= s); assert(h1 == h); return; }
    assert(h1 == heap_set_cnt(h, c, 1));
    assert forall|e: int| owners(t, e) == owners(s, e) - (if e == 0 { 1int } else { 0 }) + (if e == c { 1int } else { 0 }) by { lemma_owners_update(s, j, p, e); }
    assert forall|k: int| 0 <= k < s.len() implies (#[trigger] s[k]).ref_count_ != c && s[k].data_ != data by {}
    if owners(s, c) != 0 { lemma_owners_bound(s, c); let k = lemma_owners_some(s, c); }
    assert forall|k: int| 0 <= k < t.len() implies ((#[trigger] t[k]).data_ == 0 <==> t[k].ref_count_ == 0)
        && (t[k].ref_count_ != 0 ==> h1.live.contains(t[k].data_) && h1.cnt.contains_key(t[k].ref_count_) && h1.cnt[t[k].ref_count_] == owners(t, t[k].ref_count_)) by
    { if k != j { assert(t[k] == s[k]); } }
    assert forall|k: int, l: int| 0 <= k < t.len() && 0 <= l < t.len() && (#[trigger] t[k]).ref_count_ != 0 && (#[trigger] t[l]).ref_count_ != 0 implies (t[k].data_ == t[l].data_ <==> t[k].ref_count_ == t[l].ref_count_) by
    { if k != j { assert(t[k] == s[k]); } if l != j { assert(t[l] == s[l]); } }
    assert forall|k: int, l: int| 0 <= k < u.len() && 0 <= l < t.len() && (#[trigger] u[k]).data_ != 0 implies u[k].data_ != (#[trigger] t[l]).data_ by
    { if l != j { assert(t[l] == s[l]); } }
    assert forall|e: int| #[trigger] h1.cnt.contains_key(e) implies e != 0 && owners(t, e) >= 1 by { if e != c { assert(h.cnt.contains_key(e)); } }
}
// copy assignment is letting go and sharing; move assignment is letting go and moving
pub proof fn lemma_ptr_copy_assign(s: Seq<Sp>, u: Seq<Up>, h: Heap, i: int, j: int, h1: Heap)
    requires ptr_inv(s, u, h), 0 <= i < s.len(), 0 <= j < s.len(), i != j, heap_eq(h1, sp_taken(s[j], s[i], h, 0))
    ensures ptr_inv(s.update(j, s[i]), u, h1),
        s[j].data_ != 0 && !owned(s.update(j, s[i]), u, s[j].data_) ==> h1.live =~= h.live.remove(s[j].data_),
        s[j].data_ == 0 || owned(s.update(j, s[i]), u, s[j].data_) ==> h1.live =~= h.live
{
    let d = sp_drop(h, s[j]);
    let t = s.update(j, sp_nil());
    lemma_ptr_pre(s, u, h);
    lemma_ptr_drop(s, u, h, j, d);
    assert(sp_two(s[i], s[j], h) && sp_ok(s[i], h) && sp_ok(s[j], h) && sp_room(s[i], h));
    assert(t[i] == s[i]);
    assert(heap_eq(h1, sp_share(d, s[i])));
    lemma_ptr_share(t, u, d, i, j, h1);
    assert(t.update(j, s[i]) =~= s.update(j, s[i]));
    let f = s.update(j, s[i]);
    if s[j].data_ != 0 {
        if owned(f, u, s[j].data_) {
            if exists|k: int| 0 <= k < f.len() && (#[trigger] f[k]).data_ == s[j].data_ {
                let k = choose|k: int| 0 <= k < f.len() && (#[trigger] f[k]).data_ == s[j].data_;
                let m = if k == j { i } else { k };
                assert(t[m].data_ == s[j].data_);
            }
            assert(owned(t, u, s[j].data_));
        } else {
            assert(!owned(t, u, s[j].data_)) by {
                assert forall|k: int| 0 <= k < t.len() implies (#[trigger] t[k]).data_ != s[j].data_ by { if k != j { assert(f[k] == t[k]); } }
            }
        }
    }
}
pub proof fn lemma_ptr_move_assign(s: Seq<Sp>, u: Seq<Up>, h: Heap, i: int, j: int, h1: Heap)
    requires ptr_inv(s, u, h), 0 <= i < s.len(), 0 <= j < s.len(), i != j, heap_eq(h1, sp_drop(h, s[j]))
    ensures ptr_inv(s.update(j, s[i]).update(i, sp_nil()), u, h1)
{
    let t = s.update(j, sp_nil());
    lemma_ptr_drop(s, u, h, j, h1);
    lemma_ptr_move(t, u, h1, i, j);
    assert(t.update(j, t[i]).update(i, sp_nil()) =~= s.update(j, s[i]).update(i, sp_nil()));
}
pub proof fn lemma_ptr_reset(s: Seq<Sp>, u: Seq<Up>, h: Heap, j: int, p: Sp, data: int, h1: Heap)
    requires ptr_inv(s, u, h), 0 <= j < s.len(), sp_reset(s[j], h, p, h1, data), data != 0 && data != s[j].data_ ==> h.live.contains(data) && !owned(s, u, data)
    ensures ptr_inv(s.update(j, p), u, h1)
{
    if s[j].data_ == data { assert(s.update(j, p) =~= s); assert(h1 == h); return; }
    let t = s.update(j, sp_nil());
    let d = sp_drop(h, s[j]);
    lemma_ptr_drop(s, u, h, j, d);
    if data != 0 {
        assert(!owned(t, u, data)) by { assert forall|k: int| 0 <= k < t.len() implies (#[trigger] t[k]).data_ != data by { if k != j { assert(t[k] == s[k]); } } }
        assert(d.live.contains(data));
    }
    lemma_ptr_made(t, u, d, j, p, data, h1);
    assert(t.update(j, p) =~= s.update(j, p));
}
// a unique pointer lets go of its object by deleting it (destruction, reset, assignment) or without (release, move)
pub proof fn lemma_ptr_unique(s: Seq<Sp>, u: Seq<Up>, h: Heap, i: int, data: int, h1: Heap)
    requires ptr_inv(s, u, h), 0 <= i < u.len(), up_reset(u[i], h, up_at(data), h1, data), data != 0 && data != u[i].data_ ==> h.live.contains(data) && !owned(s, u, data)
    ensures ptr_inv(s, u.update(i, up_at(data)), h1)
{
    let v = u.update(i, up_at(data));
    if u[i].data_ == data { assert(v =~= u); assert(h1 == h); return; }
    assert(h1 == heap_del_live(h, u[i].data_));
    assert forall|k: int| 0 <= k < v.len() && (#[trigger] v[k]).data_ != 0 implies h1.live.contains(v[k].data_) by { if k != i { assert(v[k] == u[k]); } }
    assert forall|k: int, l: int| 0 <= k < v.len() && 0 <= l < v.len() && k != l && (#[trigger] v[k]).data_ != 0 implies v[k].data_ != (#[trigger] v[l]).data_ by
    { if k != i { assert(v[k] == u[k]); } if l != i { assert(v[l] == u[l]); } }
    assert forall|k: int, l: int| 0 <= k < v.len() && 0 <= l < s.len() && (#[trigger] v[k]).data_ != 0 implies v[k].data_ != (#[trigger] s[l]).data_ by { if k != i { assert(v[k] == u[k]); } }
}
pub proof fn lemma_ptr_release(s: Seq<Sp>, u: Seq<Up>, h: Heap, i: int)
    requires ptr_inv(s, u, h), 0 <= i < u.len()
    ensures ptr_inv(s, u.update(i, up_at(0)), h), u[i].data_ != 0 ==> h.live.contains(u[i].data_) && !owned(s, u.update(i, up_at(0)), u[i].data_)
{
    let v = u.update(i, up_at(0));
    assert forall|k: int, l: int| 0 <= k < v.len() && 0 <= l < s.len() && (#[trigger] v[k]).data_ != 0 implies v[k].data_ != (#[trigger] s[l]).data_ by { if k != i { assert(v[k] == u[k]); } }
    assert forall|k: int| 0 <= k < v.len() && (#[trigger] v[k]).data_ != 0 implies h.live.contains(v[k].data_) by { if k != i { assert(v[k] == u[k]); } }
    assert forall|k: int, l: int| 0 <= k < v.len() && 0 <= l < v.len() && k != l && (#[trigger] v[k]).data_ != 0 implies v[k].data_ != (#[trigger] v[l]).data_ by
    { if k != i { assert(v[k] == u[k]); } if l != i { assert(v[l] == u[l]); } }
    if u[i].data_ != 0 { assert forall|k: int| 0 <= k < v.len() implies (#[trigger] v[k]).data_ != u[i].data_ by { if k != i { assert(v[k] == u[k]); } } }
}
pub proof fn lemma_ptr_unique_move(s: Seq<Sp>, u: Seq<Up>, h: Heap, i: int, j: int, h1: Heap)
    requires ptr_inv(s, u, h), 0 <= i < u.len(), 0 <= j < u.len(), i != j, heap_eq(h1, heap_del_live(h, u[j].data_))
    ensures ptr_inv(s, u.update(j, u[i]).update(i, up_at(0)), h1)
{
    let d = u[i].data_;
    lemma_ptr_release(s, u, h, i);
    let v = u.update(i, up_at(0));
    if v[j].data_ == d {
        assert(d == 0) by { if d != 0 { assert(u[i].data_ != u[j].data_); } }
        assert(h1 == h);
    }
    lemma_ptr_unique(s, v, h, j, d, h1);
    assert(v.update(j, up_at(d)) =~= u.update(j, u[i]).update(i, up_at(0)));
}
