// ---- Strings: sequences of Chars (needs the extracted structs XChar, XString)
pub open spec fn sok(s: Seq<XChar>) -> bool { forall|i: int| 0 <= i < s.len() ==> char_ok((#[trigger] s[i]).data_) }
// the bytes a String prints
pub open spec fn flat(s: Seq<XChar>) -> Seq<u8>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { flat(s.drop_last()) + upto_nul(s.last().data_) } }
pub open spec fn nbytes(s: Seq<XChar>) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else { nbytes(s.drop_last()) + s.last().data_.len() } }
// UTF-8 text: well-formed, and its characters in order
pub open spec fn u8ok(s: Seq<u8>) -> bool
    decreases s.len()
{
    s.len() == 0 || (0 < lead_len(s[0]) <= s.len() && char_valid(s.subrange(0, lead_len(s[0]))) && u8ok(s.skip(lead_len(s[0]))))
}
pub open spec fn u8split(s: Seq<u8>) -> Seq<XChar>
    decreases s.len()
{
    if s.len() == 0 || !(0 < lead_len(s[0]) <= s.len()) { Seq::empty() }
    else { seq![XChar { data_: s.subrange(0, lead_len(s[0])) }] + u8split(s.skip(lead_len(s[0]))) }
}
pub open spec fn ascii(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < 0x80 }
pub open spec fn ch1(b: u8) -> XChar { XChar { data_: seq![b] } }
pub open spec fn chars1(s: Seq<u8>) -> Seq<XChar> { Seq::new(s.len(), |i: int| ch1(s[i])) }
pub proof fn lemma_nbytes_step(s: Seq<XChar>, i: int)
    requires 0 <= i < s.len()
    ensures nbytes(s.take(i + 1)) == nbytes(s.take(i)) + s[i].data_.len(), flat(s.take(i + 1)) =~= flat(s.take(i)) + upto_nul(s[i].data_)
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); assert(s.take(i + 1).last() == s[i]); }
pub proof fn lemma_nbytes_nonneg(s: Seq<XChar>)
    ensures nbytes(s) >= 0
    decreases s.len()
{ if s.len() > 0 { lemma_nbytes_nonneg(s.drop_last()); } }
pub proof fn lemma_flat_append(a: Seq<XChar>, b: Seq<XChar>)
    ensures flat(a + b) =~= flat(a) + flat(b), nbytes(a + b) == nbytes(a) + nbytes(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else { assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); lemma_flat_append(a, b.drop_last()); }
}
pub proof fn lemma_flat_one(c: XChar)
    ensures flat(seq![c]) =~= upto_nul(c.data_), nbytes(seq![c]) == c.data_.len()
{ assert(seq![c].drop_last() =~= Seq::<XChar>::empty()); assert(flat(Seq::<XChar>::empty()) =~= Seq::<u8>::empty()); assert(nbytes(Seq::<XChar>::empty()) == 0); }
pub proof fn lemma_flat_push(s: Seq<XChar>, c: XChar)
    ensures flat(s.push(c)) =~= flat(s) + upto_nul(c.data_)
{ assert(s.push(c).drop_last() =~= s); }
pub proof fn lemma_upto_nul_char(s: Seq<u8>)
    requires char_valid(s), s[0] != 0
    ensures upto_nul(s) =~= s, no_nul(s)
{ lemma_nulpos_clean(s); }
// C03: decoding and printing again loses nothing
pub proof fn lemma_text_roundtrip(s: Seq<u8>)
    requires u8ok(s), no_nul(s)
    ensures flat(u8split(s)) =~= s, nbytes(u8split(s)) == s.len(), sok(u8split(s))
    decreases s.len()
{
    if s.len() > 0 {
        let n = lead_len(s[0]); let c = XChar { data_: s.subrange(0, n) }; let rest = s.skip(n);
        lemma_text_roundtrip(rest); lemma_flat_append(seq![c], u8split(rest)); lemma_flat_one(c); lemma_upto_nul_char(c.data_);
        assert(s =~= s.subrange(0, n) + rest);
    }
}
pub proof fn lemma_ascii(s: Seq<u8>)
    requires ascii(s)
    ensures u8ok(s), u8split(s) =~= chars1(s), sok(chars1(s))
    decreases s.len()
{
    if s.len() > 0 {
        lemma_ascii(s.skip(1));
        assert(s.subrange(0, 1) =~= seq![s[0]]);
        assert(seq![s[0]][0] == s[0]);
        assert(chars1(s) =~= seq![ch1(s[0])] + chars1(s.skip(1)));
    }
}
pub proof fn lemma_split_append(s: Seq<u8>, t: Seq<u8>)
    requires u8ok(s)
    ensures u8split(s + t) =~= u8split(s) + u8split(t), u8ok(s + t) == u8ok(t)
    decreases s.len()
{
    if s.len() > 0 {
        let n = lead_len(s[0]);
        lemma_split_append(s.skip(n), t);
        assert((s + t).skip(n) =~= s.skip(n) + t);
        assert((s + t).subrange(0, n) =~= s.subrange(0, n));
    } else { assert(s + t =~= t); }
}
// one step of decoding C text
pub proof fn lemma_cstr_step(c: CStr)
    requires cstr_ok(c)
    ensures cstr_bytes(c).len() == nulpos(c.buf, c.off) - c.off, c.off <= nulpos(c.buf, c.off) <= c.buf.len(),
        cstr_bytes(c).len() > 0 <==> cstr_at(c, 0) != 0,
        cstr_bytes(c).len() > 0 ==> cstr_bytes(c)[0] == cstr_at(c, 0),
        cstr_bytes(c).len() > 0 ==> ({ let n = lead_len(cstr_bytes(c)[0]); 0 < n <= cstr_bytes(c).len() ==> {
            let d = CStr { buf: c.buf, off: c.off + n };
            nulpos(d.buf, d.off) == nulpos(c.buf, c.off) && cstr_ok(d) && cstr_bytes(d) =~= cstr_bytes(c).skip(n) } })
{
    lemma_nulpos(c.buf, c.off);
    if cstr_bytes(c).len() > 0 {
        let n = lead_len(cstr_bytes(c)[0]);
        if 0 < n <= cstr_bytes(c).len() { lemma_nulpos_from(c.buf, c.off, c.off + n); }
    }
}
pub proof fn lemma_nulpos_from(s: Seq<u8>, i: int, j: int)
    requires 0 <= i <= j <= nulpos(s, i), j <= s.len()
    ensures nulpos(s, j) == nulpos(s, i)
    decreases j - i
{ if i < j { lemma_nulpos(s, i); lemma_nulpos_from(s, i + 1, j); } }
pub proof fn lemma_nbytes_le(s: Seq<XChar>, i: int)
    requires 0 <= i <= s.len()
    ensures nbytes(s.take(i)) <= nbytes(s)
    decreases s.len() - i
{ if i < s.len() { lemma_nbytes_step(s, i); lemma_nbytes_le(s, i + 1); } else { assert(s.take(i) =~= s); } }
pub proof fn lemma_occurs_ends<T>(s: Seq<T>, p: Seq<T>)
    ensures p.len() == 0 ==> occurs_at(s, p, 0), forall|k: int| #[trigger] occurs_at(s, p, k) ==> 0 <= k && k + p.len() <= s.len()
{ assert(s.subrange(0, 0) =~= Seq::<T>::empty()); if p.len() == 0 { assert(p =~= Seq::<T>::empty()); } }
pub broadcast proof fn lemma_lit1(b: u8)
    requires 0 < b < 0x80
    ensures #[trigger] cstr_bytes(lit(seq![b])) == seq![b], char_valid(seq![b])
{ lemma_nulpos_clean(seq![b]); assert(seq![b][0] == b); assert(cstr_bytes(lit(seq![b])) =~= seq![b]); }
