// ---- the text of a Json value, as characters
pub open spec fn nl(m: bool) -> Seq<XChar> { if m { seq![ch1(10)] } else { Seq::empty() } }
pub open spec fn blanks(m: bool, n: int) -> Seq<XChar> { if m && n > 0 { Seq::new(n as nat, |i: int| ch1(32)) } else { Seq::empty() } }
pub open spec fn hexdig(k: int) -> u8 { if k < 10 { (48 + k) as u8 } else { (87 + k) as u8 } }
pub open spec fn first(c: XChar) -> u8 { if c.data_.len() > 0 { c.data_[0] } else { 0 } }
pub open spec fn quote1(c: XChar) -> Seq<XChar> {
    if first(c) < 0x20 { seq![ch1(92), ch1(117), ch1(48), ch1(48), ch1(if first(c) < 0x10 { 48 } else { 49 }), ch1(hexdig(first(c) as int % 0x10))] }
    else if is1(c, 34) || is1(c, 92) { seq![ch1(92), c] } else { seq![c] }
}
// the indent is that of the level on several lines, and does not matter on one
pub open spec fn lvl(m: bool, n: int) -> int { if m { n } else { 0 } }
pub open spec fn nx(m: bool, b: int, n: int) -> int { if m { n + b } else { 0 } }
// the characters of a string from the i-th on
pub open spec fn quoted(s: Seq<XChar>, i: int) -> Seq<XChar>
    decreases s.len() - i
{ if 0 <= i < s.len() { quote1(s[i]) + quoted(s, i + 1) } else { Seq::empty() } }
pub open spec fn quote(s: Seq<XChar>) -> Seq<XChar> { seq![ch1(34)] + quoted(s, 0) + seq![ch1(34)] }
pub open spec fn comma(m: bool, k: int) -> Seq<XChar> { if k > 0 { seq![ch1(44)] + nl(m) } else { Seq::empty() } }
pub open spec fn colon(m: bool) -> Seq<XChar> { if m { seq![ch1(58), ch1(32)] } else { seq![ch1(58)] } }
pub open spec fn ending(m: bool, b: int, n: int, some: bool, c: u8) -> Seq<XChar> { (if some { nl(m) } else { Seq::empty() }) + blanks(m, n - b) + seq![ch1(c)] }
pub open spec fn rsz(j: Jd) -> nat { match j.data_ { Du::object_value(o) => (o.len() + 1) as nat, Du::array_value(a) => (a.len() + 1) as nat, _ => 0 } }
// m: on several lines, b: the width of an indent, n: the indent of what is inside the value
#[verifier::opaque]
pub open spec fn rend(j: Jd, m: bool, b: int, n: int) -> Seq<XChar>
    decreases j, rsz(j)
{
    match j.data_ {
        Du::object_value(o) => rmem_head(j, m) + rmem(j, 0, m, b, n) + ending(m, b, n, o.len() > 0, 125),
        Du::array_value(a) => relm_head(j, m) + relm(j, 0, m, b, n) + ending(m, b, n, a.len() > 0, 93),
        Du::string_value(s) => quote(s.data_),
        Du::floating_value(v) => u8split(flt_out_F32(v)),
        Du::integral_value(v) => chars1(int_dec(v as int)),
        Du::boolean_value(v) => if v { chars1(w_true()) } else { chars1(w_false()) },
        _ => chars1(w_null()),
    }
}
// the members of an object from the k-th on
#[verifier::opaque]
pub open spec fn rmem(j: Jd, k: int, m: bool, b: int, n: int) -> Seq<XChar>
    decreases j, (if j.data_ is object_value { j.data_->object_value_0.len() - k } else { 0 })
{
    match j.data_ {
        Du::object_value(o) => if 0 <= k < o.len() && o[k].second is Live {
            comma(m, k) + blanks(m, n) + quote(o[k].first.data_) + colon(m) + rend(o[k].second->Live_0, m, b, nx(m, b, n)) + rmem(j, k + 1, m, b, n)
        } else { Seq::empty() },
        _ => Seq::empty(),
    }
}
#[verifier::opaque]
pub open spec fn relm(j: Jd, k: int, m: bool, b: int, n: int) -> Seq<XChar>
    decreases j, (if j.data_ is array_value { j.data_->array_value_0.len() - k } else { 0 })
{
    match j.data_ {
        Du::array_value(a) => if 0 <= k < a.len() && a[k] is Live { comma(m, k) + blanks(m, n) + rend(a[k]->Live_0, m, b, nx(m, b, n)) + relm(j, k + 1, m, b, n) } else { Seq::empty() },
        _ => Seq::empty(),
    }
}
pub open spec fn rmem_head(j: Jd, m: bool) -> Seq<XChar> { seq![ch1(123)] + (if j.data_->object_value_0.len() > 0 { nl(m) } else { Seq::empty() }) }
pub open spec fn relm_head(j: Jd, m: bool) -> Seq<XChar> { seq![ch1(91)] + (if j.data_->array_value_0.len() > 0 { nl(m) } else { Seq::empty() }) }
pub proof fn axiom_flt_text(v: F32)
    ensures u8ok(flt_out_F32(v)), no_nul(flt_out_F32(v))
{ admit(); }
pub proof fn lemma_flat_chars1(b: Seq<u8>)
    requires no_nul(b)
    ensures flat(chars1(b)) =~= b
    decreases b.len()
{
    if b.len() > 0 {
        let a = b.drop_last();
        assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i] != 0 by { assert(b[i] != 0); }
        lemma_flat_chars1(a);
        assert(chars1(b).drop_last() =~= chars1(a));
        let c = seq![b.last()]; assert(no_nul(c)) by { assert(b[b.len() - 1] != 0); }
        lemma_nulpos_clean(c);
        assert(upto_nul(c) =~= c);
    } else { assert(chars1(b) =~= Seq::empty()); }
}
pub open spec fn nlb(m: bool) -> Seq<u8> { if m { seq![10u8] } else { Seq::empty() } }
pub proof fn lemma_flat1(b: u8)
    requires b != 0
    ensures flat(seq![ch1(b)]) =~= seq![b]
{ let s = seq![b]; lemma_flat_chars1(s); assert(chars1(s) =~= seq![ch1(b)]); }
pub proof fn lemma_flat_bits(m: bool, n: int, k: int)
    ensures flat(nl(m)) =~= nlb(m), m ==> blanks(m, n) =~= blanks(true, n), !m ==> flat(blanks(m, n)).len() == 0,
        flat(comma(m, k)) =~= (if k > 0 { seq![44u8] + nlb(m) } else { Seq::empty() }), flat(colon(m)) =~= (if m { seq![58u8, 32u8] } else { seq![58u8] })
{
    lemma_flat1(10); lemma_flat1(44); lemma_flat1(58); lemma_flat1(32);
    lemma_flat_append(seq![ch1(44)], nl(m));
    assert(seq![ch1(58), ch1(32)] =~= seq![ch1(58)] + seq![ch1(32)]); lemma_flat_append(seq![ch1(58)], seq![ch1(32)]);
    assert(seq![58u8, 32u8] =~= seq![58u8] + seq![32u8]);
    if !m { assert(blanks(m, n) =~= Seq::empty()); assert(nl(m) =~= Seq::empty()); }
    assert(flat(Seq::<XChar>::empty()) =~= Seq::empty());
}
pub proof fn lemma_rmem_flat(j: Jd, k: int, m: bool, b: int, n: int)
    requires wf(j), j.data_ is object_value, 0 <= k <= j.data_->object_value_0.len()
    ensures ({ let o = j.data_->object_value_0;
        flat(rmem(j, k, m, b, n)) =~= (if k < o.len() { (if k > 0 { seq![44u8] + nlb(m) } else { Seq::empty() }) + flat(blanks(m, n)) + flat(quote(o[k].first.data_)) + (if m { seq![58u8, 32u8] } else { seq![58u8] })
            + flat(rend(o[k].second->Live_0, m, b, nx(m, b, n))) + flat(rmem(j, k + 1, m, b, n)) } else { Seq::empty() }) }), !m ==> flat(blanks(m, n)).len() == 0, m ==> blanks(m, n) =~= blanks(true, n)
{
    reveal(rend); reveal(rmem); reveal(relm);
    let o = j.data_->object_value_0;
    lemma_flat_bits(m, n, k);
    if k < o.len() {
        assert(o[k].second is Live);
        let a = comma(m, k); let b2 = blanks(m, n); let q = quote(o[k].first.data_); let c = colon(m); let r = rend(o[k].second->Live_0, m, b, nx(m, b, n)); let e = rmem(j, k + 1, m, b, n);
        assert(rmem(j, k, m, b, n) == a + b2 + q + c + r + e);
        lemma_flat_append(a, b2); lemma_flat_append(a + b2, q); lemma_flat_append(a + b2 + q, c); lemma_flat_append(a + b2 + q + c, r); lemma_flat_append(a + b2 + q + c + r, e);
    } else { assert(rmem(j, k, m, b, n) == Seq::<XChar>::empty()); assert(flat(Seq::<XChar>::empty()) =~= Seq::empty()); }
}
pub proof fn lemma_relm_flat(j: Jd, k: int, m: bool, b: int, n: int)
    requires wf(j), j.data_ is array_value, 0 <= k <= j.data_->array_value_0.len()
    ensures ({ let o = j.data_->array_value_0;
        flat(relm(j, k, m, b, n)) =~= (if k < o.len() { (if k > 0 { seq![44u8] + nlb(m) } else { Seq::empty() }) + flat(blanks(m, n)) + flat(rend(o[k]->Live_0, m, b, nx(m, b, n))) + flat(relm(j, k + 1, m, b, n)) } else { Seq::empty() }) }),
        !m ==> flat(blanks(m, n)).len() == 0, m ==> blanks(m, n) =~= blanks(true, n)
{
    reveal(rend); reveal(rmem); reveal(relm);
    let o = j.data_->array_value_0;
    lemma_flat_bits(m, n, k);
    if k < o.len() {
        assert(o[k] is Live);
        let a = comma(m, k); let b2 = blanks(m, n); let r = rend(o[k]->Live_0, m, b, nx(m, b, n)); let e = relm(j, k + 1, m, b, n);
        assert(relm(j, k, m, b, n) == a + b2 + r + e);
        lemma_flat_append(a, b2); lemma_flat_append(a + b2, r); lemma_flat_append(a + b2 + r, e);
    } else { assert(relm(j, k, m, b, n) == Seq::<XChar>::empty()); assert(flat(Seq::<XChar>::empty()) =~= Seq::empty()); }
}
pub proof fn lemma_ending_flat(m: bool, b: int, n: int, some: bool, c: u8)
    requires c != 0
    ensures flat(ending(m, b, n, some, c)) =~= (if some { nlb(m) } else { Seq::empty() }) + flat(blanks(m, n - b)) + seq![c]
{
    lemma_flat_bits(m, n - b, 0); lemma_flat1(c); assert(flat(Seq::<XChar>::empty()) =~= Seq::empty());
    let a = if some { nl(m) } else { Seq::<XChar>::empty() };
    lemma_flat_append(a, blanks(m, n - b)); lemma_flat_append(a + blanks(m, n - b), seq![ch1(c)]);
}
pub proof fn lemma_rend_flat(j: Jd, m: bool, b: int, n: int)
    requires wf(j)
    ensures
        match j.data_ {
            Du::object_value(o) => flat(rmem_head(j, m)) =~= seq![123u8] + (if o.len() > 0 { nlb(m) } else { Seq::empty() })
                && flat(rend(j, m, b, n)) =~= flat(rmem_head(j, m)) + flat(rmem(j, 0, m, b, n)) + (if o.len() > 0 { nlb(m) } else { Seq::empty() }) + flat(blanks(m, n - b)) + seq![125u8] && (o.len() == 0 ==> flat(rmem(j, 0, m, b, n)) =~= Seq::empty()),
            Du::array_value(o) => flat(relm_head(j, m)) =~= seq![91u8] + (if o.len() > 0 { nlb(m) } else { Seq::empty() })
                && flat(rend(j, m, b, n)) =~= flat(relm_head(j, m)) + flat(relm(j, 0, m, b, n)) + (if o.len() > 0 { nlb(m) } else { Seq::empty() }) + flat(blanks(m, n - b)) + seq![93u8] && (o.len() == 0 ==> flat(relm(j, 0, m, b, n)) =~= Seq::empty()),
            Du::string_value(s) => flat(rend(j, m, b, n)) =~= flat(quote(s.data_)),
            Du::floating_value(v) => flat(rend(j, m, b, n)) =~= flt_out_F32(v),
            Du::integral_value(v) => flat(rend(j, m, b, n)) =~= int_dec(v as int),
            Du::boolean_value(v) => flat(rend(j, m, b, n)) =~= (if v { w_true() } else { w_false() }),
            _ => flat(rend(j, m, b, n)) =~= w_null(),
        }, !m ==> flat(blanks(m, n - b)).len() == 0, m ==> blanks(m, n - b) =~= blanks(true, n - b)
{
    reveal(rend); reveal(rmem); reveal(relm); lemma_lits();
    lemma_flat_bits(m, n - b, 0); lemma_flat1(123); lemma_flat1(91); assert(flat(Seq::<XChar>::empty()) =~= Seq::empty());
    match j.data_ {
        Du::object_value(o) => {
            let e = ending(m, b, n, o.len() > 0, 125); let h = rmem_head(j, m); let p = if o.len() > 0 { nl(m) } else { Seq::empty() };
            assert(rend(j, m, b, n) == h + rmem(j, 0, m, b, n) + e);
            if o.len() == 0 { assert(rmem(j, 0, m, b, n) == Seq::<XChar>::empty()); }
            lemma_ending_flat(m, b, n, o.len() > 0, 125); lemma_flat_append(seq![ch1(123)], p); lemma_flat_append(h, rmem(j, 0, m, b, n)); lemma_flat_append(h + rmem(j, 0, m, b, n), e);
        },
        Du::array_value(o) => {
            let e = ending(m, b, n, o.len() > 0, 93); let h = relm_head(j, m); let p = if o.len() > 0 { nl(m) } else { Seq::empty() };
            assert(rend(j, m, b, n) == h + relm(j, 0, m, b, n) + e);
            if o.len() == 0 { assert(relm(j, 0, m, b, n) == Seq::<XChar>::empty()); }
            lemma_ending_flat(m, b, n, o.len() > 0, 93); lemma_flat_append(seq![ch1(91)], p); lemma_flat_append(h, relm(j, 0, m, b, n)); lemma_flat_append(h + relm(j, 0, m, b, n), e);
        },
        Du::floating_value(v) => { axiom_flt_text(v); lemma_text_roundtrip(flt_out_F32(v)); lemma_nulpos_clean(flt_out_F32(v)); },
        Du::integral_value(v) => { lemma_int_plain(v as int); lemma_flat_chars1(int_dec(v as int)); },
        Du::boolean_value(v) => { lemma_flat_chars1(w_true()); lemma_flat_chars1(w_false()); },
        Du::string_value(_) => {},
        _ => { lemma_flat_chars1(w_null()); },
    }
}
pub proof fn lemma_int_plain(n: int)
    ensures ascii(int_dec(n)), no_nul(int_dec(n))
{
    let m = (if n < 0 { -n } else { n }) as nat;
    lemma_nat_dec(m);
    assert forall|i: int| 0 <= i < int_dec(n).len() implies #[trigger] int_dec(n)[i] < 0x80 && int_dec(n)[i] != 0 by {
        if n < 0 { if i > 0 { assert(int_dec(n)[i] == nat_dec(m)[i - 1]); assert(is_dig(nat_dec(m)[i - 1])); } } else { assert(is_dig(nat_dec(m)[i])); }
    }
}
pub proof fn lemma_quote1_flat(c: XChar)
    requires char_ok(c.data_)
    ensures flat(quote1(c)) =~= (if first(c) < 0x20 { seq![92u8, 117, 48, 48, if first(c) < 0x10 { 48 } else { 49 }, hexdig(first(c) as int % 0x10)] } else if is1(c, 34) || is1(c, 92) { seq![92u8] + upto_nul(c.data_) } else { upto_nul(c.data_) })
{
    if first(c) < 0x20 {
        let b = seq![92u8, 117, 48, 48, if first(c) < 0x10 { 48 } else { 49 }, hexdig(first(c) as int % 0x10)];
        assert(quote1(c) =~= chars1(b)); lemma_flat_chars1(b);
    } else {
        lemma_flat_one(c); lemma_flat1(92); assert(seq![ch1(92), c] =~= seq![ch1(92)] + seq![c]); lemma_flat_append(seq![ch1(92)], seq![c]);
    }
}
pub proof fn lemma_quoted_flat(s: Seq<XChar>, i: int)
    requires sok(s), 0 <= i <= s.len()
    ensures flat(quoted(s, i)) =~= (if i < s.len() {
        (if first(s[i]) < 0x20 { seq![92u8, 117, 48, 48, if first(s[i]) < 0x10 { 48 } else { 49 }, hexdig(first(s[i]) as int % 0x10)] } else if is1(s[i], 34) || is1(s[i], 92) { seq![92u8] + upto_nul(s[i].data_) } else { upto_nul(s[i].data_) })
        + flat(quoted(s, i + 1)) } else { Seq::empty() }), i < s.len() ==> char_ok(s[i].data_)
{ if i < s.len() { assert(char_ok(s[i].data_)); lemma_quote1_flat(s[i]); lemma_flat_append(quote1(s[i]), quoted(s, i + 1)); } else { assert(flat(Seq::<XChar>::empty()) =~= Seq::empty()); } }
pub proof fn lemma_quote_flat(s: Seq<XChar>)
    ensures flat(quote(s)) =~= seq![34u8] + flat(quoted(s, 0)) + seq![34u8]
{ lemma_flat1(34); lemma_flat_append(seq![ch1(34)], quoted(s, 0)); lemma_flat_append(seq![ch1(34)] + quoted(s, 0), seq![ch1(34)]); }
// ---- every character of the text is a valid one and none is U+0000, so writing it and splitting it again gives the same characters
pub open spec fn tidy(s: Seq<XChar>) -> bool { forall|i: int| 0 <= i < s.len() ==> char_valid((#[trigger] s[i]).data_) && s[i].data_[0] != 0 }
pub proof fn lemma_flat_split(s: Seq<XChar>)
    requires tidy(s)
    ensures sok(s), u8split(flat(s)) =~= s, u8ok(flat(s)), no_nul(flat(s)), upto_nul(flat(s)) =~= flat(s)
    decreases s.len()
{
    assert(sok(s)) by { assert forall|i: int| 0 <= i < s.len() implies char_ok((#[trigger] s[i]).data_) by {} }
    lemma_flat_clean(s);
    if s.len() > 0 {
        let a = s.drop_last(); let c = s.last();
        assert(tidy(a)) by { assert forall|i: int| 0 <= i < a.len() implies char_valid((#[trigger] a[i]).data_) && a[i].data_[0] != 0 by { assert(a[i] == s[i]); } }
        lemma_flat_split(a);
        assert(char_ok(s[s.len() - 1].data_));
        lemma_u8_one(c.data_); lemma_upto_nul_char(c.data_);
        lemma_split_append(flat(a), c.data_);
        assert(flat(s) =~= flat(a) + c.data_);
        assert(s =~= a + seq![c]);
        assert(c.data_.subrange(0, lead_len(c.data_[0])) =~= c.data_); assert(c.data_.skip(lead_len(c.data_[0])) =~= Seq::empty()); assert(char_valid(c.data_)); assert(u8split(Seq::<u8>::empty()) =~= Seq::empty()); assert(u8split(c.data_) =~= seq![c]);
    } else { assert(flat(s) =~= Seq::empty()); }
}
pub proof fn lemma_tidy_cat(a: Seq<XChar>, b: Seq<XChar>)
    requires tidy(a), tidy(b)
    ensures tidy(a + b)
{ assert forall|i: int| 0 <= i < (a + b).len() implies char_valid((#[trigger] (a + b)[i]).data_) && (a + b)[i].data_[0] != 0 by { if i < a.len() { assert((a + b)[i] == a[i]); } else { assert((a + b)[i] == b[i - a.len()]); } } }
pub proof fn lemma_tidy1(b: u8)
    requires 0 < b < 0x80
    ensures tidy(seq![ch1(b)])
{ assert(char_valid(ch1(b).data_)); }
pub proof fn lemma_tidy_chars1(b: Seq<u8>)
    requires no_nul(b), ascii(b)
    ensures tidy(chars1(b))
{ assert forall|i: int| 0 <= i < chars1(b).len() implies char_valid((#[trigger] chars1(b)[i]).data_) && chars1(b)[i].data_[0] != 0 by { assert(b[i] < 0x80 && b[i] != 0); } }
pub proof fn lemma_tidy_split(b: Seq<u8>)
    requires u8ok(b), no_nul(b)
    ensures tidy(u8split(b))
    decreases b.len()
{
    if b.len() > 0 {
        let n = lead_len(b[0]); let c = XChar { data_: b.subrange(0, n) }; let rest = b.skip(n);
        lemma_tidy_split(rest);
        assert(tidy(seq![c]));
        lemma_tidy_cat(seq![c], u8split(rest));
    }
}
pub proof fn lemma_tidy_bits(m: bool, n: int, k: int)
    ensures tidy(nl(m)), tidy(blanks(m, n)), tidy(comma(m, k)), tidy(colon(m))
{ lemma_tidy1(10); lemma_tidy1(44); lemma_tidy1(58); lemma_tidy1(32); lemma_tidy_cat(seq![ch1(44)], nl(m)); assert(seq![ch1(58), ch1(32)] =~= seq![ch1(58)] + seq![ch1(32)]); lemma_tidy_cat(seq![ch1(58)], seq![ch1(32)]);
  assert(char_valid(ch1(32).data_)); }
pub proof fn lemma_tidy_quoted(s: Seq<XChar>, i: int)
    requires sok(s), 0 <= i <= s.len()
    ensures tidy(quoted(s, i))
    decreases s.len() - i
{
    if i < s.len() {
        lemma_tidy_quoted(s, i + 1);
        let c = s[i]; assert(char_ok(c.data_));
        if first(c) < 0x20 {
            let b = seq![92u8, 117, 48, 48, if first(c) < 0x10 { 48 } else { 49 }, hexdig(first(c) as int % 0x10)];
            assert(quote1(c) =~= chars1(b)); lemma_tidy_chars1(b);
        } else { assert(tidy(seq![c])); lemma_tidy1(92); assert(seq![ch1(92), c] =~= seq![ch1(92)] + seq![c]); lemma_tidy_cat(seq![ch1(92)], seq![c]); }
        lemma_tidy_cat(quote1(c), quoted(s, i + 1));
    }
}
pub proof fn lemma_tidy_quote(s: Seq<XChar>)
    requires sok(s)
    ensures tidy(quote(s))
{ lemma_tidy_quoted(s, 0); lemma_tidy1(34); lemma_tidy_cat(seq![ch1(34)], quoted(s, 0)); lemma_tidy_cat(seq![ch1(34)] + quoted(s, 0), seq![ch1(34)]); }
pub proof fn lemma_tidy_rend(j: Jd, m: bool, b: int, n: int)
    requires wf(j)
    ensures tidy(rend(j, m, b, n))
    decreases j, rsz(j)
{
    reveal(rend); reveal(rmem); reveal(relm); lemma_lits(); lemma_tidy_bits(m, n - b, 0); lemma_tidy1(123); lemma_tidy1(91); lemma_tidy1(125); lemma_tidy1(93);
    match j.data_ {
        Du::object_value(o) => {
            let p = if o.len() > 0 { nl(m) } else { Seq::empty() };
            lemma_tidy_rmem(j, 0, m, b, n);
            lemma_tidy_cat(seq![ch1(123)], p); lemma_tidy_cat(rmem_head(j, m), rmem(j, 0, m, b, n));
            lemma_tidy_cat(p, blanks(m, n - b)); lemma_tidy_cat(p + blanks(m, n - b), seq![ch1(125)]); lemma_tidy_cat(rmem_head(j, m) + rmem(j, 0, m, b, n), ending(m, b, n, o.len() > 0, 125));
            assert(rend(j, m, b, n) == rmem_head(j, m) + rmem(j, 0, m, b, n) + ending(m, b, n, o.len() > 0, 125));
        },
        Du::array_value(o) => {
            let p = if o.len() > 0 { nl(m) } else { Seq::empty() };
            lemma_tidy_relm(j, 0, m, b, n);
            lemma_tidy_cat(seq![ch1(91)], p); lemma_tidy_cat(relm_head(j, m), relm(j, 0, m, b, n));
            lemma_tidy_cat(p, blanks(m, n - b)); lemma_tidy_cat(p + blanks(m, n - b), seq![ch1(93)]); lemma_tidy_cat(relm_head(j, m) + relm(j, 0, m, b, n), ending(m, b, n, o.len() > 0, 93));
            assert(rend(j, m, b, n) == relm_head(j, m) + relm(j, 0, m, b, n) + ending(m, b, n, o.len() > 0, 93));
        },
        Du::string_value(s) => { lemma_tidy_quote(s.data_); },
        Du::floating_value(v) => { axiom_flt_text(v); lemma_tidy_split(flt_out_F32(v)); },
        Du::integral_value(v) => { lemma_int_plain(v as int); lemma_tidy_chars1(int_dec(v as int)); },
        Du::boolean_value(v) => { lemma_tidy_chars1(w_true()); lemma_tidy_chars1(w_false()); },
        _ => { lemma_tidy_chars1(w_null()); },
    }
}
pub proof fn lemma_tidy_rmem(j: Jd, k: int, m: bool, b: int, n: int)
    requires wf(j), j.data_ is object_value, 0 <= k <= j.data_->object_value_0.len()
    ensures tidy(rmem(j, k, m, b, n))
    decreases j, j.data_->object_value_0.len() - k
{
    reveal(rend); reveal(rmem); reveal(relm); let o = j.data_->object_value_0;
    lemma_tidy_bits(m, n, k);
    if k < o.len() {
        assert(o[k].second is Live);
        let a = comma(m, k); let b2 = blanks(m, n); let q = quote(o[k].first.data_); let c = colon(m); let r = rend(o[k].second->Live_0, m, b, nx(m, b, n)); let e = rmem(j, k + 1, m, b, n);
        lemma_tidy_quote(o[k].first.data_); lemma_tidy_rend(o[k].second->Live_0, m, b, nx(m, b, n)); lemma_tidy_rmem(j, k + 1, m, b, n);
        lemma_tidy_cat(a, b2); lemma_tidy_cat(a + b2, q); lemma_tidy_cat(a + b2 + q, c); lemma_tidy_cat(a + b2 + q + c, r); lemma_tidy_cat(a + b2 + q + c + r, e);
        assert(rmem(j, k, m, b, n) == a + b2 + q + c + r + e);
    } else { assert(rmem(j, k, m, b, n) == Seq::<XChar>::empty()); }
}
pub proof fn lemma_tidy_relm(j: Jd, k: int, m: bool, b: int, n: int)
    requires wf(j), j.data_ is array_value, 0 <= k <= j.data_->array_value_0.len()
    ensures tidy(relm(j, k, m, b, n))
    decreases j, j.data_->array_value_0.len() - k
{
    reveal(rend); reveal(rmem); reveal(relm); let o = j.data_->array_value_0;
    lemma_tidy_bits(m, n, k);
    if k < o.len() {
        assert(o[k] is Live);
        let a = comma(m, k); let b2 = blanks(m, n); let r = rend(o[k]->Live_0, m, b, nx(m, b, n)); let e = relm(j, k + 1, m, b, n);
        lemma_tidy_rend(o[k]->Live_0, m, b, nx(m, b, n)); lemma_tidy_relm(j, k + 1, m, b, n);
        lemma_tidy_cat(a, b2); lemma_tidy_cat(a + b2, r); lemma_tidy_cat(a + b2 + r, e);
        assert(relm(j, k, m, b, n) == a + b2 + r + e);
    } else { assert(relm(j, k, m, b, n) == Seq::<XChar>::empty()); }
}
pub broadcast proof fn lemma_blanks(s: Seq<XChar>)
    requires forall|i: int| 0 <= i < s.len() ==> s[i] == ch1(32)
    ensures #[trigger] flat(s) == flat(blanks(true, s.len() as int))
{ assert(s =~= blanks(true, s.len() as int)); }
