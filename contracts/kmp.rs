// ---- Knuth-Morris-Pratt: prefixes of p that end at position i of t
pub open spec fn jv(j: u64) -> int { if j == 0xffff_ffff_ffff_ffff { -1 } else { j as int } }
pub open spec fn pm(p: Seq<u8>, t: Seq<u8>, i: int, k: int) -> bool {
    0 <= k <= p.len() && k <= i <= t.len() && (forall|q: int| 0 <= q < k ==> #[trigger] p[q] == t[i - k + q])
}
// f is the length of the longest proper border of the first i bytes (-1 for none at i == 0)
pub open spec fn border(p: Seq<u8>, i: int, f: int) -> bool {
    if i == 0 { f == -1 } else { 0 <= f < i && pm(p, p, i, f) && (forall|k: int| f < k < i ==> !#[trigger] pm(p, p, i, k)) }
}
pub open spec fn borders(p: Seq<u8>, f: Seq<u64>, n: int) -> bool {
    forall|q: int| 0 <= q <= n ==> border(p, q, jv(#[trigger] f[q]))
}
// a shorter prefix that ends at i is a border of a longer one
pub proof fn lemma_pm_nest(p: Seq<u8>, t: Seq<u8>, i: int, j: int, k: int)
    requires pm(p, t, i, j), 0 <= k < j
    ensures pm(p, t, i, k) <==> pm(p, p, j, k)
{
    if pm(p, t, i, k) {
        assert forall|q: int| 0 <= q < k implies #[trigger] p[q] == p[j - k + q] by { assert(p[j - k + q] == t[i - j + (j - k + q)]); }
    }
    if pm(p, p, j, k) {
        assert forall|q: int| 0 <= q < k implies #[trigger] p[q] == t[i - k + q] by { assert(p[j - k + q] == t[i - j + (j - k + q)]); }
    }
}
pub proof fn lemma_pm_step(p: Seq<u8>, t: Seq<u8>, i: int, k: int)
    requires 0 <= i < t.len(), 0 <= k < p.len()
    ensures pm(p, t, i + 1, k + 1) <==> (pm(p, t, i, k) && p[k] == t[i])
{
    if pm(p, t, i + 1, k + 1) {
        assert(p[k] == t[i + 1 - (k + 1) + k]);
        assert forall|q: int| 0 <= q < k implies #[trigger] p[q] == t[i - k + q] by { assert(p[q] == t[i + 1 - (k + 1) + q]); }
    }
}
// the candidates still possible at position i are exactly those not longer than j
pub open spec fn kcand(p: Seq<u8>, t: Seq<u8>, i: int, j: int, top: int) -> bool {
    -1 <= j <= top && (j >= 0 ==> pm(p, t, i, j)) && (forall|k: int| j < k <= top && 0 <= k ==> !(#[trigger] pm(p, t, i, k) && p[k] == t[i]))
}
pub proof fn lemma_kfall(p: Seq<u8>, t: Seq<u8>, i: int, j: int, f: int, top: int)
    requires kcand(p, t, i, j, top), 0 <= j, top < p.len(), border(p, j, f), p[j] != t[i]
    ensures kcand(p, t, i, f, top), f < j
{
    if f >= 0 { lemma_pm_nest(p, t, i, j, f); }
    assert forall|k: int| f < k <= top && 0 <= k implies !(#[trigger] pm(p, t, i, k) && p[k] == t[i]) by {
        if k < j { lemma_pm_nest(p, t, i, j, k); }
    }
}
pub proof fn lemma_kadvance(p: Seq<u8>, t: Seq<u8>, i: int, j: int, top: int)
    requires kcand(p, t, i, j, top), top < p.len(), 0 <= i < t.len(), j >= 0 ==> p[j] == t[i]
    ensures pm(p, t, i + 1, j + 1), forall|k: int| j + 1 < k <= top + 1 ==> !#[trigger] pm(p, t, i + 1, k)
{
    if j >= 0 { lemma_pm_step(p, t, i, j); }
    assert forall|k: int| j + 1 < k <= top + 1 implies !#[trigger] pm(p, t, i + 1, k) by { lemma_pm_step(p, t, i, k - 1); }
}
pub proof fn lemma_pm_occurs(p: Seq<u8>, t: Seq<u8>, i: int)
    ensures pm(p, t, i, p.len() as int) <==> occurs_at(t, p, i - p.len()), p.len() == 0 ==> occurs_at(t, p, 0)
{
    let k = p.len() as int;
    if pm(p, t, i, k) { assert(t.subrange(i - k, i) =~= p); }
    if occurs_at(t, p, i - k) { assert forall|q: int| 0 <= q < k implies #[trigger] p[q] == t[i - k + q] by { assert(t.subrange(i - k, i)[q] == p[q]); } }
    if k == 0 { assert(t.subrange(0, 0) =~= p); }
}
