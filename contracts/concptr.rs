// ---- one SharedPtr of a thread
pub open spec fn cs_null(p: Sp) -> bool { p.data_ == 0 && p.ref_count_ == 0 }
pub open spec fn cs_ok(p: Sp, h: CHeap) -> bool {
    (p.data_ == 0 <==> p.ref_count_ == 0) && (p.data_ != 0 ==> hold(h, p.ref_count_) && !one(h, p.ref_count_) && h.obj[p.ref_count_] == p.data_)
}
// it can be read and copied: it, or the pointer it is borrowed from, stays meanwhile
pub open spec fn cs_uses(p: Sp, h: CHeap) -> bool { cs_ok(p, h) }
// it belongs to this thread
pub open spec fn cs_owns(p: Sp, h: CHeap) -> bool { cs_ok(p, h) && (p.data_ != 0 ==> mn(h, p.ref_count_) >= 1) }
pub open spec fn cs_two(p: Sp, q: Sp, h: CHeap) -> bool { p.ref_count_ != 0 && p.ref_count_ == q.ref_count_ ==> mn(h, p.ref_count_) >= 2 || h.bor.contains(p.ref_count_) }
pub open spec fn is1(a: int, b: int) -> int { if a == b && a != 0 { 1 } else { 0 } }
// what this thread alone can reach is as before, and so is what its owners own
pub open spec fn cs_keeps(h: CHeap, g: CHeap) -> bool { cs_keeps_but(h, g, 0) }
// a counter that is gone may leave its address to a new one
pub open spec fn cs_keeps_but(h: CHeap, g: CHeap, n: int) -> bool {
    g.bor == h.bor && g.sole =~= h.sole && g.seen =~= h.seen
    && forall|c: int| #![trigger g.obj[c]] #![trigger h.obj[c]] c != n && hold(h, c) && hold(g, c) && !h.sole.contains(c) ==> g.obj[c] == h.obj[c]
}
// this thread has one owner less at counter `a` and one more at `b` (0: none), and no object or counter is left behind for it to delete
pub open spec fn cs_moves(h: CHeap, g: CHeap, a: int, b: int) -> bool {
    cs_keeps(h, g) && g.own =~= h.own && forall|c: int| #![trigger mn(g, c)] mn(g, c) == mn(h, c) - is1(c, a) + is1(c, b)
}
// the first owner of an object that only this thread could reach
pub open spec fn cs_made(h: CHeap, g: CHeap, p: Sp, data: int) -> bool {
    p.data_ == data && (data == 0 ==> p.ref_count_ == 0 && cs_moves(h, g, 0, 0))
    && (data != 0 ==> cs_keeps(h, g) && cs_ok(p, g) && g.own =~= h.own.remove(data) && !hold(h, p.ref_count_) && forall|c: int| #![trigger mn(g, c)] mn(g, c) == mn(h, c) + is1(c, p.ref_count_))
}
pub open spec fn cs_reset(p: Sp, h: CHeap, p1: Sp, g: CHeap, data: int) -> bool {
    if p.data_ == data { p1 == p && cs_moves(h, g, 0, 0) }
    else {
        p1.data_ == data && (data == 0 ==> p1.ref_count_ == 0 && cs_moves(h, g, p.ref_count_, 0))
        && (data != 0 ==> cs_keeps_but(h, g, p1.ref_count_) && cs_ok(p1, g) && g.own =~= h.own.remove(data) && forall|c: int| #![trigger mn(g, c)] mn(g, c) == mn(h, c) - is1(c, p.ref_count_) + is1(c, p1.ref_count_))
    }
}
