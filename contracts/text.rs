// ---- text utilities
// pieces of s[i..] between delimiters; a trailing delimiter adds no piece
pub open spec fn pieces(s: Seq<u8>, d: u8, i: int) -> Seq<Seq<u8>>
    decreases s.len() - i
{
    let e = byte_find(s, d, i);
    if i < 0 || i >= s.len() { Seq::empty() } else if e <= i && s[i] != d || e >= s.len() { seq![s.subrange(i, s.len() as int)] }
    else if e < i { Seq::empty() } else { seq![s.subrange(i, e)] + pieces(s, d, e + 1) }
}
pub open spec fn join(p: Seq<Seq<u8>>, d: u8) -> Seq<u8>
    decreases p.len()
{ if p.len() == 0 { Seq::empty() } else if p.len() == 1 { p[0] } else { p[0].push(d) + join(p.skip(1), d) } }
// what the cut means: no piece contains the delimiter, and joining them gives the text back up to one trailing delimiter
pub proof fn lemma_pieces(s: Seq<u8>, d: u8, i: int)
    requires 0 <= i <= s.len()
    ensures ({ let p = pieces(s, d, i); let t = s.subrange(i, s.len() as int);
        (p.len() == 0 <==> i == s.len())
        && (join(p, d) =~= t || (s.len() > i && s.last() == d && join(p, d).push(d) =~= t))
        && forall|k: int, m: int| 0 <= k < p.len() && 0 <= m < p[k].len() ==> #[trigger] p[k][m] != d })
    decreases s.len() - i
{
    lemma_byte_find(s, d, i);
    let e = byte_find(s, d, i);
    let p = pieces(s, d, i);
    if i < s.len() && e < s.len() {
        lemma_pieces(s, d, e + 1);
        let q = pieces(s, d, e + 1);
        assert(p =~= seq![s.subrange(i, e)] + q);
        assert(p.skip(1) =~= q);
        assert(s.subrange(i, s.len() as int) =~= s.subrange(i, e).push(d) + s.subrange(e + 1, s.len() as int));
        if q.len() > 0 { assert(join(p, d) =~= s.subrange(i, e).push(d) + join(q, d)); }
    }
}
pub open spec fn rept(s: Seq<u8>, n: int) -> Seq<u8>
    decreases n
{ if n <= 0 { Seq::empty() } else { rept(s, n - 1) + s } }
pub open spec fn is1(c: XChar, b: u8) -> bool { c.data_ =~= seq![b] }
// backslash escapes
pub open spec fn esc_byte(b: u8) -> int {
    if b == 34 || b == 63 || b == 92 || b == 47 { b as int }
    else if b == 97 { 7 } else if b == 98 { 8 } else if b == 102 { 12 } else if b == 110 { 10 } else if b == 114 { 13 }
    else if b == 116 { 9 } else if b == 118 { 11 } else { -1 }
}
pub open spec fn one(c: XChar) -> u8 { if c.data_.len() == 1 { c.data_[0] } else { 0 } }
pub open spec fn is_hexd(b: u8) -> bool { 48 <= b <= 57 || 65 <= b <= 70 || 97 <= b <= 102 }
pub open spec fn hexd(b: u8) -> int { if b <= 57 { b - 48 } else if b <= 70 { b - 55 } else { b - 87 } }
pub open spec fn hex4(s: Seq<XChar>, i: int) -> bool {
    i + 4 <= s.len() && is_hexd(one(s[i])) && is_hexd(one(s[i + 1])) && is_hexd(one(s[i + 2])) && is_hexd(one(s[i + 3]))
}
pub open spec fn hex4_val(s: Seq<XChar>, i: int) -> int {
    ((hexd(one(s[i])) * 16 + hexd(one(s[i + 1]))) * 16 + hexd(one(s[i + 2]))) * 16 + hexd(one(s[i + 3]))
}
// number of characters of one unit at i, and the bytes it stands for
pub open spec fn esc_len(s: Seq<XChar>, i: int) -> int {
    if one(s[i]) == 92 && i + 1 < s.len() {
        if esc_byte(one(s[i + 1])) >= 0 { 2 } else if one(s[i + 1]) == 117 && hex4(s, i + 2) { 6 } else { 1 }
    } else { 1 }
}
pub open spec fn esc_out(s: Seq<XChar>, i: int) -> Seq<u8> {
    if esc_len(s, i) == 2 { seq![esc_byte(one(s[i + 1])) as u8] }
    else if esc_len(s, i) == 6 { utf8_enc(hex4_val(s, i + 2) as u32) }
    else { upto_nul(s[i].data_) }
}
pub open spec fn esc(s: Seq<XChar>, i: int) -> Seq<u8>
    decreases s.len() - i
{ if i < 0 || i >= s.len() { Seq::empty() } else { esc_out(s, i) + esc(s, i + esc_len(s, i)) } }
pub proof fn lemma_u8_one(c: Seq<u8>)
    requires char_ok(c)
    ensures u8ok(upto_nul(c)), no_nul(upto_nul(c))
{
    lemma_nulpos(c, 0);
    if c.len() > 0 && c[0] != 0 {
        lemma_upto_nul_char(c); assert(upto_nul(c) == c);
        assert(c.skip(lead_len(c[0])) =~= Seq::<u8>::empty()); assert(c.subrange(0, c.len() as int) =~= c);
        assert(u8ok(Seq::<u8>::empty()));
    } else { assert(nulpos(c, 0) == 0); assert(upto_nul(c) =~= Seq::<u8>::empty()); }
}
pub proof fn lemma_enc_clean(v: u32)
    requires v < 0x20_0000
    ensures u8ok(utf8_enc(v)), no_nul(utf8_enc(v))
{
    lemma_utf8_roundtrip(v);
    let c = utf8_enc(v);
    if v > 0 {
        assert(c.skip(lead_len(c[0])) =~= Seq::<u8>::empty()); assert(c.subrange(0, c.len() as int) =~= c);
        assert(u8ok(Seq::<u8>::empty()));
        assert(v >= 0x40 ==> (v / 0x40) % 0x40 < 0x40);
        assert(no_nul(c));
    }
}
pub proof fn lemma_esc_clean(s: Seq<XChar>, i: int)
    requires sok(s), 0 <= i
    ensures u8ok(esc(s, i)), no_nul(esc(s, i)), upto_nul(esc(s, i)) =~= esc(s, i)
    decreases s.len() - i
{
    if i < s.len() {
        let n = esc_len(s, i);
        lemma_esc_clean(s, i + n);
        assert(char_ok(s[i].data_));
        if n == 1 { lemma_u8_one(s[i].data_); } else if n == 6 { lemma_enc_clean(hex4_val(s, i + 2) as u32); }
        else { lemma_ascii(esc_out(s, i)); }
        lemma_split_append(esc_out(s, i), esc(s, i + n));
    }
    lemma_nulpos_clean(esc(s, i));
}
pub proof fn lemma_flat_hex(t: Seq<XChar>)
    requires sok(t)
    ensures (forall|k: int| 0 <= k < flat(t).len() ==> is_hexd(#[trigger] flat(t)[k])) ==> flat(t).len() <= t.len()
        && (flat(t).len() == t.len() ==> forall|k: int| 0 <= k < t.len() ==> #[trigger] t[k].data_.len() == 1 && one(t[k]) == flat(t)[k]),
        (forall|k: int| 0 <= k < t.len() ==> is_hexd(one(#[trigger] t[k]))) ==> flat(t).len() == t.len()
        && (forall|k: int| 0 <= k < t.len() ==> one(#[trigger] t[k]) == flat(t)[k])
    decreases t.len()
{
    if t.len() > 0 {
        let u = t.drop_last(); let c = t.last().data_; let b = upto_nul(c);
        assert forall|i: int| 0 <= i < u.len() implies char_ok((#[trigger] u[i]).data_) by { assert(u[i] == t[i]); }
        lemma_flat_hex(u);
        assert(char_ok(t[t.len() - 1].data_));
        lemma_nulpos(c, 0);
        if forall|k: int| 0 <= k < flat(t).len() ==> is_hexd(#[trigger] flat(t)[k]) {
            assert forall|k: int| 0 <= k < flat(u).len() implies is_hexd(#[trigger] flat(u)[k]) by { assert(flat(u)[k] == flat(t)[k]); }
            assert forall|k: int| 0 <= k < b.len() implies is_hexd(#[trigger] b[k]) by { assert(b[k] == flat(t)[flat(u).len() + k]); }
            if b.len() > 0 { assert(b[0] == c[0]); assert(is_hexd(b[0])); assert(c.len() == 1); }
            if flat(t).len() == t.len() {
                assert(b.len() == 1 && flat(u).len() == u.len());
                assert forall|k: int| 0 <= k < t.len() implies #[trigger] t[k].data_.len() == 1 && one(t[k]) == flat(t)[k] by {
                    if k < u.len() { assert(u[k] == t[k]); assert(flat(u)[k] == flat(t)[k]); } else { assert(flat(t)[k] == b[0]); }
                }
            }
        }
        if forall|k: int| 0 <= k < t.len() ==> is_hexd(one(#[trigger] t[k])) {
            assert forall|k: int| 0 <= k < u.len() implies is_hexd(one(#[trigger] u[k])) by { assert(u[k] == t[k]); }
            assert(is_hexd(one(t[t.len() - 1])));
            assert(nulpos(c, 0) == 1) by { assert(nulpos(c, 1) == 1); }
            assert forall|k: int| 0 <= k < t.len() implies one(#[trigger] t[k]) == flat(t)[k] by {
                if k < u.len() { assert(u[k] == t[k]); assert(flat(u)[k] == flat(t)[k]); } else { assert(flat(t)[k] == b[0]); }
            }
        }
    }
}
pub proof fn lemma_hex4(s: Seq<XChar>, i: int, h: Seq<u8>)
    requires sok(s), 0 <= i <= s.len(), h == flat(s.subrange(i, if i + 4 <= s.len() { i + 4 } else { s.len() as int }))
    ensures hex4(s, i) <==> h.len() == 4 && is_hexd(h[0]) && is_hexd(h[1]) && is_hexd(h[2]) && is_hexd(h[3]),
        hex4(s, i) ==> sto_valid(h, 16) && sto_val(h, 16) == hex4_val(s, i) && 0 <= hex4_val(s, i) < 0x1_0000
{
    let t = s.subrange(i, if i + 4 <= s.len() { i + 4 } else { s.len() as int });
    assert forall|k: int| 0 <= k < t.len() implies char_ok((#[trigger] t[k]).data_) by { assert(t[k] == s[i + k]); }
    lemma_flat_hex(t);
    assert(t.len() == 4 ==> t[0] == s[i] && t[1] == s[i + 1] && t[2] == s[i + 2] && t[3] == s[i + 3]);
    if hex4(s, i) { lemma_sto_hex4(h); }
}
pub proof fn lemma_sto_hex4(h: Seq<u8>)
    requires h.len() == 4, is_hexd(h[0]), is_hexd(h[1]), is_hexd(h[2]), is_hexd(h[3])
    ensures sto_valid(h, 16), sto_val(h, 16) == ((hexd(h[0]) * 16 + hexd(h[1])) * 16 + hexd(h[2])) * 16 + hexd(h[3]), 0 <= sto_val(h, 16) < 0x1_0000
{
    assert(sto_skip(h, 0) == 0);
    assert(sto_start(h, 16) == 0);
    assert(sto_digits(h, 4, 16) == 4);
    assert(sto_digits(h, 3, 16) == 4);
    assert(sto_digits(h, 2, 16) == 4);
    assert(sto_digits(h, 1, 16) == 4);
    assert(sto_digits(h, 0, 16) == 4);
    assert(h.subrange(0, 4) =~= h);
    let a = h.drop_last(); let b = a.drop_last(); let c = b.drop_last();
    assert(c.drop_last() =~= Seq::<u8>::empty());
    assert(base_val(Seq::<u8>::empty(), 16) == 0);
    assert(base_val(c, 16) == hexd(h[0]));
    assert(base_val(b, 16) == base_val(c, 16) * 16 + hexd(h[1]));
    assert(base_val(a, 16) == base_val(b, 16) * 16 + hexd(h[2]));
    assert(base_val(h, 16) == base_val(a, 16) * 16 + hexd(h[3]));
}
// ---- shared
pub open spec fn udig(c: XChar) -> bool { uc_digit(utf8_cp(c.data_)) }
pub open spec fn at1(s: Seq<XChar>, i: int, b: u8) -> bool { 0 <= i < s.len() && is1(s[i], b) }
pub proof fn lemma_sok_sub(s: Seq<XChar>, i: int, j: int)
    requires sok(s), 0 <= i <= j <= s.len()
    ensures sok(s.subrange(i, j))
{ assert forall|k: int| 0 <= k < j - i implies char_ok((#[trigger] s.subrange(i, j)[k]).data_) by { assert(s.subrange(i, j)[k] == s[i + k]); } }
pub proof fn lemma_flat_clean(s: Seq<XChar>)
    requires sok(s)
    ensures u8ok(flat(s)), no_nul(flat(s)), upto_nul(flat(s)) =~= flat(s), flat(u8split(flat(s))) =~= flat(s), sok(u8split(flat(s)))
    decreases s.len()
{
    if s.len() > 0 {
        lemma_sok_sub(s, 0, s.len() - 1);
        assert(s.drop_last() =~= s.subrange(0, s.len() - 1));
        lemma_flat_clean(s.drop_last());
        assert(char_ok(s[s.len() - 1].data_));
        lemma_u8_one(s.last().data_);
        lemma_split_append(flat(s.drop_last()), upto_nul(s.last().data_));
    }
    lemma_nulpos_clean(flat(s));
    lemma_text_roundtrip(flat(s));
}
pub open spec fn clean(b: Seq<u8>) -> bool { u8ok(b) && no_nul(b) }
pub proof fn lemma_clean_cat(a: Seq<u8>, b: Seq<u8>)
    requires clean(a), clean(b)
    ensures clean(a + b), upto_nul(a + b) =~= a + b
{ lemma_split_append(a, b); lemma_nulpos_clean(a + b); }
pub broadcast proof fn lemma_split1(b: u8)
    requires 0 < b < 0x80
    ensures #[trigger] u8split(seq![b]) == seq![ch1(b)], u8ok(seq![b])
{ assert(ascii(seq![b])); lemma_ascii(seq![b]); assert(chars1(seq![b]) =~= seq![ch1(b)]); }
pub broadcast proof fn lemma_ok1(b: u8)
    requires 0 < b < 0x80
    ensures #[trigger] u8ok(seq![b]), no_nul(seq![b])
{ lemma_split1(b); lemma_nulpos_clean(seq![b]); }
