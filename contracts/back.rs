// ---- C13: reading what was printed gives the same value again
// no floats, whose text the stream decides, and no character U+0000, which no Json text denotes
pub open spec fn plain(j: Jd) -> bool
    decreases j
{
    match j.data_ {
        Du::object_value(o) => forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i]).second is Live && tidy(o[i].first.data_) && plain(o[i].second->Live_0),
        Du::array_value(a) => forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]) is Live && plain(a[i]->Live_0),
        Du::string_value(s) => tidy(s.data_),
        Du::floating_value(_) => false,
        _ => true,
    }
}
// the characters w at position i of t
pub open spec fn has(t: Seq<XChar>, i: int, w: Seq<XChar>) -> bool { 0 <= i && i + w.len() <= t.len() && t.subrange(i, i + w.len()) == w }
pub proof fn lemma_has_at(t: Seq<XChar>, i: int, w: Seq<XChar>)
    requires has(t, i, w)
    ensures forall|k: int| i <= k < i + w.len() ==> #[trigger] t[k] == w[k - i]
{ assert forall|k: int| i <= k < i + w.len() implies #[trigger] t[k] == w[k - i] by { assert(t.subrange(i, i + w.len())[k - i] == t[k]); } }
pub proof fn lemma_has_cat(t: Seq<XChar>, i: int, a: Seq<XChar>, b: Seq<XChar>)
    requires has(t, i, a + b)
    ensures has(t, i, a), has(t, i + a.len(), b)
{
    lemma_has_at(t, i, a + b);
    assert(t.subrange(i, i + a.len()) =~= a) by { assert forall|k: int| 0 <= k < a.len() implies t[i + k] == a[k] by { assert(t[i + k] == (a + b)[k]); } }
    assert(t.subrange(i + a.len(), i + a.len() + b.len()) =~= b) by { assert forall|k: int| 0 <= k < b.len() implies t[i + a.len() + k] == b[k] by { assert(t[i + a.len() + k] == (a + b)[a.len() + k]); } }
}
pub proof fn lemma_has_one(t: Seq<XChar>, i: int, c: XChar, b: Seq<XChar>)
    requires has(t, i, seq![c] + b)
    ensures 0 <= i < t.len(), t[i] == c, has(t, i + 1, b)
{ lemma_has_cat(t, i, seq![c], b); lemma_has_at(t, i, seq![c]); }
// white space up to something else
pub proof fn lemma_has_ws(t: Seq<XChar>, i: int, a: Seq<XChar>, b: Seq<XChar>)
    requires has(t, i, a), has(t, i + a.len(), b), forall|k: int| 0 <= k < a.len() ==> #[trigger] a[k] == ch1(10) || a[k] == ch1(32), forall|k: int| 0 <= k < b.len() ==> #[trigger] b[k] == ch1(10) || b[k] == ch1(32),
        i + a.len() + b.len() < t.len(), !jspace(t[i + a.len() + b.len()])
    ensures ws(t, i) == i + a.len() + b.len()
{
    lemma_has_at(t, i, a); lemma_has_at(t, i + a.len(), b);
    assert(jspace(ch1(10))); assert(jspace(ch1(32)));
    lemma_ws_to(t, i, i + a.len() + b.len());
}
// the characters a value starts with, and those that may follow one
pub open spec fn starts(c: XChar) -> bool { is1(c, 123) || is1(c, 91) || is1(c, 34) || is1(c, 116) || is1(c, 102) || is1(c, 110) || is1(c, 45) || (c.data_.len() == 1 && is_dig(c.data_[0])) }
pub open spec fn stops(t: Seq<XChar>, i: int) -> bool { i < t.len() ==> at1(t, i, 44) || at1(t, i, 10) || at1(t, i, 32) || at1(t, i, 93) || at1(t, i, 125) }
pub proof fn lemma_starts(c: XChar)
    requires starts(c)
    ensures !jspace(c), !is1(c, 93), !is1(c, 125), !is1(c, 44), !is1(c, 58)
{}
pub proof fn lemma_rend_first(j: Jd, m: bool, b: int, n: int)
    requires wf(j), plain(j)
    ensures rend(j, m, b, n).len() > 0, starts(rend(j, m, b, n)[0])
{
    reveal(rend); reveal(rmem); reveal(relm);
    match j.data_ {
        Du::integral_value(v) => { lemma_int_first(v as int); },
        _ => {},
    }
}
pub proof fn lemma_int_first(v: int)
    ensures int_dec(v).len() > 0, int_dec(v)[0] == 45 || is_dig(int_dec(v)[0])
{ let m = (if v < 0 { -v } else { v }) as nat; lemma_nat_dec(m); assert(is_dig(nat_dec(m)[0])); }
// ---- strings
pub proof fn lemma_hexdig(k: int)
    requires 0 <= k < 16
    ensures is_hexd(hexdig(k)), hexd(hexdig(k)) == k, 0 < hexdig(k) < 0x80
{}
pub proof fn lemma_ctrl(c: XChar)
    requires char_valid(c.data_), 0 < c.data_[0] < 0x80
    ensures c.data_ =~= seq![c.data_[0]], utf8_enc(c.data_[0] as u32) =~= c.data_
{}
pub proof fn lemma_back_quoted(t: Seq<XChar>, i: int, s: Seq<XChar>, k: int, acc: Seq<u8>)
    requires tidy(s), 0 <= k <= s.len(), has(t, i, quoted(s, k) + seq![ch1(34)])
    ensures jstr(t, i, acc) == Some((acc + flat(s.skip(k)), i + quoted(s, k).len() + 1))
    decreases s.len() - k
{
    broadcast use lemma_is1b;
    if k == s.len() {
        assert(quoted(s, k) + seq![ch1(34)] =~= seq![ch1(34)] + Seq::<XChar>::empty());
        lemma_has_one(t, i, ch1(34), Seq::empty());
        assert(s.skip(k) =~= Seq::<XChar>::empty()); assert(flat(Seq::<XChar>::empty()) =~= Seq::<u8>::empty());
        assert(acc + Seq::<u8>::empty() =~= acc);
    } else {
        let c = s[k]; let q = quote1(c); let r = quoted(s, k + 1) + seq![ch1(34)];
        assert(char_valid(c.data_) && c.data_[0] != 0);
        assert(quoted(s, k) + seq![ch1(34)] =~= q + r);
        lemma_has_cat(t, i, q, r); lemma_has_at(t, i, q);
        lemma_upto_nul_char(c.data_); lemma_flat_one(c);
        assert(s.skip(k) =~= seq![c] + s.skip(k + 1)); lemma_flat_append(seq![c], s.skip(k + 1));
        assert(flat(s.skip(k)) == c.data_ + flat(s.skip(k + 1)));
        assert(acc + flat(s.skip(k)) =~= acc + c.data_ + flat(s.skip(k + 1)));
        lemma_back_quoted(t, i + q.len(), s, k + 1, acc + c.data_);
        if first(c) < 0x20 {
            let v = first(c) as int;
            lemma_ctrl(c); lemma_hexdig(v % 16);
            assert(t[i] == q[0]); assert(t[i + 1] == q[1]); assert(t[i + 2] == q[2]); assert(t[i + 3] == q[3]); assert(t[i + 4] == q[4]); assert(t[i + 5] == q[5]);
            assert(hex4(t, i + 2)); assert(hex4_val(t, i + 2) == v);
            assert(jesc1(t[i + 1]) == -1);
            assert(jesc(t, i + 1) == Some((utf8_enc(v as u32), i + 6)));
        } else if is1(c, 34) || is1(c, 92) {
            assert(t[i] == q[0]); assert(t[i + 1] == q[1]);
            assert(jesc1(t[i + 1]) == c.data_[0]); assert(c.data_ =~= seq![c.data_[0]]);
            assert(jesc(t, i + 1) == Some((c.data_, i + 2)));
        } else {
            assert(t[i] == q[0]);
            assert(!at1(t, i, 34) && !at1(t, i, 92));
        }
    }
}
pub proof fn lemma_back_quote(t: Seq<XChar>, i: int, s: Seq<XChar>)
    requires tidy(s), has(t, i, quote(s))
    ensures at1(t, i, 34), jstr(t, i + 1, Seq::empty()) == Some((flat(s), i + quote(s).len())), u8split(flat(s)) == s
{
    let r = quoted(s, 0) + seq![ch1(34)];
    assert(quote(s) =~= seq![ch1(34)] + r);
    lemma_has_one(t, i, ch1(34), r); lemma_back_quoted(t, i + 1, s, 0, Seq::empty());
    assert(s.skip(0) =~= s); assert(Seq::<u8>::empty() + flat(s) =~= flat(s));
    lemma_flat_split(s);
}
// ---- words and numbers
pub proof fn lemma_has_word(t: Seq<XChar>, i: int, w: Seq<u8>)
    requires has(t, i, chars1(w)), no_nul(w), w.len() > 0
    ensures word(t, i, w), at1(t, i, w[0]), forall|x: Seq<u8>| x.len() > 0 && x[0] != w[0] ==> !#[trigger] word(t, i, x)
{
    lemma_flat_chars1(w); lemma_has_at(t, i, chars1(w)); assert(t[i] == chars1(w)[0]);
    assert forall|x: Seq<u8>| x.len() > 0 && x[0] != w[0] implies !#[trigger] word(t, i, x) by {
        let e = if i + x.len() <= t.len() { i + x.len() } else { t.len() as int };
        let s = t.subrange(i, e);
        assert(s =~= seq![t[i]] + t.subrange(i + 1, e)); lemma_flat_append(seq![t[i]], t.subrange(i + 1, e)); lemma_flat_one(t[i]);
        let c = seq![w[0]]; lemma_nulpos_clean(c); assert(upto_nul(c) =~= c);
        assert(flat(s)[0] == w[0]);
    }
}
pub proof fn lemma_numend_to(t: Seq<XChar>, i: int, e: int)
    requires 0 <= i <= e <= t.len(), forall|k: int| i <= k < e ==> numchar(#[trigger] t[k]), e < t.len() ==> !numchar(t[e])
    ensures numend(t, i) == e
    decreases e - i
{ if i < e { lemma_numend_to(t, i + 1, e); } }
pub proof fn lemma_digs_to(s: Seq<u8>, i: int)
    requires 0 <= i <= s.len(), forall|k: int| i <= k < s.len() ==> is_dig(#[trigger] s[k])
    ensures digs(s, i) == s.len()
    decreases s.len() - i
{ if i < s.len() { assert(is_dig(s[i])); lemma_digs_to(s, i + 1); } }
pub proof fn lemma_back_int(v: int)
    ensures is_numeral(int_dec(v)), sto_val(int_dec(v), 10) == v
{
    let s = int_dec(v); let m = (if v < 0 { -v } else { v }) as nat; let d = nat_dec(m); let a: int = if v < 0 { 1 } else { 0 };
    lemma_nat_dec(m);
    assert forall|k: int| a <= k < s.len() implies is_dig(#[trigger] s[k]) by { assert(is_dig(d[k - a])); }
    lemma_int_first(v);
    assert(v >= 0 ==> is_dig(s[0]));
    assert(signs(s, 0) == a);
    lemma_digs_to(s, a);
    assert(sto_skip(s, 0) == 0);
    assert(sto_start(s, 10) == a);
    lemma_sto_digits(s, a, s.len() as int);
    assert(s.subrange(a, s.len() as int) =~= d);
    lemma_base_dec(d);
}
pub proof fn lemma_back_num(t: Seq<XChar>, i: int, v: i64)
    requires has(t, i, chars1(int_dec(v as int))), stops(t, i + int_dec(v as int).len())
    ensures jnum(t, i) == Some((jint(v as int), i + int_dec(v as int).len()))
{
    let s = int_dec(v as int); let e = i + s.len();
    lemma_int_plain(v as int); lemma_flat_chars1(s); lemma_back_int(v as int); lemma_has_at(t, i, chars1(s));
    let m = (if v < 0 { -v } else { v as int }) as nat; lemma_nat_dec(m);
    assert forall|k: int| 0 <= k < s.len() implies #[trigger] s[k] == 45 || is_dig(s[k]) by { if v < 0 { if k > 0 { assert(is_dig(nat_dec(m)[k - 1])); } } else { assert(is_dig(nat_dec(m)[k])); } }
    assert forall|k: int| i <= k < e implies numchar(#[trigger] t[k]) by { assert(t[k] == chars1(s)[k - i]); assert(s[k - i] == 45 || is_dig(s[k - i])); assert(t[k] == ch1(s[k - i])); }
    lemma_numend_to(t, i, e);
    let d = t.subrange(i, e);
    assert(d == chars1(s));
    assert(!is_real(d)) by { assert forall|k: int| !#[trigger] realmark(d, k) by { if 0 <= k < d.len() { assert(d[k] == ch1(s[k])); assert(d[k].data_[0] == s[k]); assert(s[k] == 45 || is_dig(s[k])); } } }
}
// ---- values
pub proof fn lemma_pad(m: bool, n: int)
    ensures forall|k: int| 0 <= k < nl(m).len() ==> #[trigger] nl(m)[k] == ch1(10) || nl(m)[k] == ch1(32), forall|k: int| 0 <= k < blanks(m, n).len() ==> #[trigger] blanks(m, n)[k] == ch1(10) || blanks(m, n)[k] == ch1(32)
{}
// what may follow a value: the next element, or the end of the array or the object
pub proof fn lemma_ending_at(t: Seq<XChar>, i: int, m: bool, b: int, n: int, some: bool, c: u8)
    requires has(t, i, ending(m, b, n, some, c)), c == 93 || c == 125
    ensures stops(t, i), ws(t, i) == i + ending(m, b, n, some, c).len() - 1, at1(t, ws(t, i), c), ending(m, b, n, some, c).len() > 0
{
    broadcast use lemma_is1b;
    let p = if some { nl(m) } else { Seq::<XChar>::empty() }; let q = blanks(m, n - b); let e = seq![ch1(c)];
    lemma_has_cat(t, i, p + q, e); lemma_has_cat(t, i, p, q); lemma_has_at(t, i + p.len() + q.len(), e); lemma_has_at(t, i, p); lemma_has_at(t, i + p.len(), q);
    lemma_pad(m, n - b);
    assert(t[i + p.len() + q.len()] == ch1(c)); assert(!jspace(ch1(c)));
    lemma_has_ws(t, i, p, q);
    if p.len() > 0 { assert(t[i] == p[0]); } else if q.len() > 0 { assert(t[i] == q[0]); }
}
#[verifier::spinoff_prover] #[verifier::rlimit(80)]
pub proof fn lemma_back(t: Seq<XChar>, i: int, j: Jd, m: bool, b: int, n: int)
    requires wf(j), plain(j), has(t, i, rend(j, m, b, n)), stops(t, i + rend(j, m, b, n).len())
    ensures jval(t, i) == Some((j, i + rend(j, m, b, n).len()))
    decreases j, rsz(j) + 1
{
    broadcast use lemma_is1b;
    let r = rend(j, m, b, n); let e = i + r.len();
    lemma_rend_first(j, m, b, n); lemma_has_at(t, i, r); assert(t[i] == r[0]); lemma_starts(t[i]);
    lemma_ws(t, i); lemma_ws_to(t, i, i); lemma_jval_def(t, i);
    reveal(rend); reveal(rmem); reveal(relm);
    match j.data_ {
        Du::object_value(o) => {
            let h = rmem_head(j, m); let p = if o.len() > 0 { nl(m) } else { Seq::<XChar>::empty() }; let f = ending(m, b, n, o.len() > 0, 125);
            assert(r == h + rmem(j, 0, m, b, n) + f);
            lemma_has_cat(t, i, h + rmem(j, 0, m, b, n), f); lemma_has_cat(t, i, h, rmem(j, 0, m, b, n)); lemma_has_one(t, i, ch1(123), p);
            if o.len() == 0 {
                assert(rmem(j, 0, m, b, n) == Seq::<XChar>::empty());
                lemma_ending_at(t, i + 1, m, b, n, false, 125);
                lemma_jobj_def(t, ws(t, i + 1), Seq::empty());
                assert(o =~= Seq::empty());
            } else {
                lemma_mem_start(t, i + 1 + p.len(), j, 0, m, b, n);
                let q = i + 1 + p.len() + comma(m, 0).len() + blanks(m, n).len();
                lemma_pad(m, n); lemma_has_ws(t, i + 1, p, blanks(m, n));
                lemma_back_obj(t, q, j, 0, m, b, n);
                assert(o.take(0) =~= Seq::empty());
            }
        },
        Du::array_value(o) => {
            let h = relm_head(j, m); let p = if o.len() > 0 { nl(m) } else { Seq::<XChar>::empty() }; let f = ending(m, b, n, o.len() > 0, 93);
            assert(r == h + relm(j, 0, m, b, n) + f);
            lemma_has_cat(t, i, h + relm(j, 0, m, b, n), f); lemma_has_cat(t, i, h, relm(j, 0, m, b, n)); lemma_has_one(t, i, ch1(91), p);
            if o.len() == 0 {
                assert(relm(j, 0, m, b, n) == Seq::<XChar>::empty());
                lemma_ending_at(t, i + 1, m, b, n, false, 93);
                lemma_jarr_def(t, ws(t, i + 1), Seq::empty());
                assert(o =~= Seq::empty());
            } else {
                lemma_elm_start(t, i + 1 + p.len(), j, 0, m, b, n);
                let q = i + 1 + p.len() + comma(m, 0).len() + blanks(m, n).len();
                lemma_pad(m, n); lemma_has_ws(t, i + 1, p, blanks(m, n));
                lemma_back_arr(t, q, j, 0, m, b, n);
                assert(o.take(0) =~= Seq::empty());
            }
        },
        Du::string_value(s) => { lemma_back_quote(t, i, s.data_); },
        Du::floating_value(v) => {},
        Du::integral_value(v) => { lemma_back_num(t, i, v); lemma_int_first(v as int); assert(udig(t[i]) || at1(t, i, 45)); },
        Du::boolean_value(v) => { lemma_has_word(t, i, if v { w_true() } else { w_false() }); },
        _ => { lemma_has_word(t, i, w_null()); },
    }
}
// the k-th member: its place, and what is there
pub open spec fn rest_mem(j: Jd, k: int, m: bool, b: int, n: int) -> Seq<XChar> { let o = j.data_->object_value_0; quote(o[k].first.data_) + colon(m) + rend(o[k].second->Live_0, m, b, nx(m, b, n)) + rmem(j, k + 1, m, b, n) }
pub open spec fn rest_elm(j: Jd, k: int, m: bool, b: int, n: int) -> Seq<XChar> { rend(j.data_->array_value_0[k]->Live_0, m, b, nx(m, b, n)) + relm(j, k + 1, m, b, n) }
pub proof fn lemma_mem_start(t: Seq<XChar>, i: int, j: Jd, k: int, m: bool, b: int, n: int)
    requires wf(j), plain(j), j.data_ is object_value, 0 <= k < j.data_->object_value_0.len(), has(t, i, rmem(j, k, m, b, n))
    ensures ({ let q = i + comma(m, k).len() + blanks(m, n).len();
        has(t, i, comma(m, k)) && has(t, i + comma(m, k).len(), blanks(m, n)) && has(t, q, rest_mem(j, k, m, b, n)) && at1(t, q, 34) && !jspace(t[q]) && rmem(j, k, m, b, n).len() == q - i + rest_mem(j, k, m, b, n).len() })
{
    broadcast use lemma_is1b;
    reveal(rend); reveal(rmem); reveal(relm);
    let o = j.data_->object_value_0; let a = comma(m, k); let b2 = blanks(m, n); let w = rest_mem(j, k, m, b, n);
    assert(o[k].second is Live);
    assert(rmem(j, k, m, b, n) == a + b2 + quote(o[k].first.data_) + colon(m) + rend(o[k].second->Live_0, m, b, nx(m, b, n)) + rmem(j, k + 1, m, b, n));
    assert(rmem(j, k, m, b, n) =~= (a + b2) + w);
    lemma_has_cat(t, i, a + b2, w); lemma_has_cat(t, i, a, b2);
    let q = i + a.len() + b2.len();
    lemma_has_at(t, q, w); assert(w[0] == ch1(34)); assert(t[q] == w[0]); lemma_starts(t[q]);
}
pub proof fn lemma_elm_start(t: Seq<XChar>, i: int, j: Jd, k: int, m: bool, b: int, n: int)
    requires wf(j), plain(j), j.data_ is array_value, 0 <= k < j.data_->array_value_0.len(), has(t, i, relm(j, k, m, b, n))
    ensures ({ let q = i + comma(m, k).len() + blanks(m, n).len();
        has(t, i, comma(m, k)) && has(t, i + comma(m, k).len(), blanks(m, n)) && has(t, q, rest_elm(j, k, m, b, n)) && q < t.len() && starts(t[q]) && !jspace(t[q]) && relm(j, k, m, b, n).len() == q - i + rest_elm(j, k, m, b, n).len() })
{
    broadcast use lemma_is1b;
    reveal(rend); reveal(rmem); reveal(relm);
    let o = j.data_->array_value_0; let a = comma(m, k); let b2 = blanks(m, n); let w = rest_elm(j, k, m, b, n);
    assert(o[k] is Live);
    assert(relm(j, k, m, b, n) == a + b2 + rend(o[k]->Live_0, m, b, nx(m, b, n)) + relm(j, k + 1, m, b, n));
    assert(relm(j, k, m, b, n) =~= (a + b2) + w);
    lemma_has_cat(t, i, a + b2, w); lemma_has_cat(t, i, a, b2);
    let q = i + a.len() + b2.len();
    lemma_rend_first(o[k]->Live_0, m, b, nx(m, b, n));
    lemma_has_at(t, q, w); assert(w[0] == rend(o[k]->Live_0, m, b, nx(m, b, n))[0]); assert(t[q] == w[0]); lemma_starts(t[q]);
}
pub proof fn lemma_back_arr(t: Seq<XChar>, i: int, j: Jd, k: int, m: bool, b: int, n: int)
    requires wf(j), plain(j), j.data_ is array_value, 0 <= k < j.data_->array_value_0.len(), has(t, i, rest_elm(j, k, m, b, n)), has(t, i + rest_elm(j, k, m, b, n).len(), ending(m, b, n, true, 93))
    ensures jarr(t, i, j.data_->array_value_0.take(k)) == Some((j, i + rest_elm(j, k, m, b, n).len() + ending(m, b, n, true, 93).len()))
    decreases j, j.data_->array_value_0.len() - k
{
    broadcast use lemma_is1b;
    let o = j.data_->array_value_0; assert(o[k] is Live); let v = o[k]->Live_0; let r = rend(v, m, b, nx(m, b, n)); let rest = relm(j, k + 1, m, b, n);
    let f = ending(m, b, n, true, 93);
    lemma_has_cat(t, i, r, rest);
    lemma_rend_first(v, m, b, nx(m, b, n)); lemma_has_at(t, i, r); assert(t[i] == r[0]); lemma_starts(t[i]);
    let x = i + r.len();
    assert(o.take(k).push(Own::Live(v)) =~= o.take(k + 1)) by { assert(o[k] == Own::Live(v)); }
    lemma_jarr_def(t, i, o.take(k));
    if k + 1 < o.len() {
        lemma_elm_start(t, x, j, k + 1, m, b, n);
        let cm = comma(m, k + 1); lemma_has_at(t, x, cm); assert(t[x] == cm[0]); lemma_has_one(t, x, ch1(44), nl(m));
        lemma_back(t, i, v, m, b, nx(m, b, n));
        let q = x + cm.len() + blanks(m, n).len();
        lemma_ws_to(t, x, x); lemma_pad(m, n); lemma_has_ws(t, x + 1, nl(m), blanks(m, n));
        lemma_starts(t[q]);
        lemma_back_arr(t, q, j, k + 1, m, b, n);
    } else {
        reveal(rend); reveal(rmem); reveal(relm);
        assert(rest == Seq::<XChar>::empty());
        lemma_ending_at(t, x, m, b, n, true, 93);
        lemma_back(t, i, v, m, b, nx(m, b, n));
        lemma_ws(t, x);
        assert(o.take(k + 1) =~= o);
    }
}
pub proof fn lemma_set_new(o: Seq<Mem>, k: int)
    requires keys_ok(o), 0 <= k < o.len(), o[k].second is Live
    ensures set_key(o.take(k), o[k].first, o[k].second->Live_0) =~= o.take(k + 1)
{
    let a = o.take(k); let key = o[k].first; let v = o[k].second->Live_0;
    assert(!has_key(a, key)) by { if has_key(a, key) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).first == key; assert(o[i].first == o[k].first); } }
    let p = with_key(a, key);
    assert(p[k].first == key);
    assert(key_at(p, key) == k) by { let i = key_at(p, key); assert(0 <= i < p.len() && p[i].first == key); if i < k { assert(a[i].first == key); } }
    assert(o[k] == Pair { first: key, second: Own::Live(v) });
}
pub proof fn lemma_back_obj(t: Seq<XChar>, i: int, j: Jd, k: int, m: bool, b: int, n: int)
    requires wf(j), plain(j), j.data_ is object_value, 0 <= k < j.data_->object_value_0.len(), has(t, i, rest_mem(j, k, m, b, n)), has(t, i + rest_mem(j, k, m, b, n).len(), ending(m, b, n, true, 125))
    ensures jobj(t, i, j.data_->object_value_0.take(k)) == Some((j, i + rest_mem(j, k, m, b, n).len() + ending(m, b, n, true, 125).len()))
    decreases j, j.data_->object_value_0.len() - k
{
    broadcast use lemma_is1b;
    let o = j.data_->object_value_0; assert(o[k].second is Live); let v = o[k].second->Live_0; let r = rend(v, m, b, nx(m, b, n)); let rest = rmem(j, k + 1, m, b, n);
    let f = ending(m, b, n, true, 125); let kq = quote(o[k].first.data_); let cl = colon(m);
    lemma_has_cat(t, i, kq + cl + r, rest); lemma_has_cat(t, i, kq + cl, r); lemma_has_cat(t, i, kq, cl);
    lemma_back_quote(t, i, o[k].first.data_);
    let c = i + kq.len(); lemma_has_at(t, c, cl); assert(t[c] == cl[0]); assert(!jspace(ch1(58))); lemma_ws_to(t, c, c);
    let y = c + cl.len();
    lemma_rend_first(v, m, b, nx(m, b, n)); lemma_has_at(t, y, r); assert(t[y] == r[0]); lemma_starts(t[y]);
    assert(ws(t, c + 1) == y) by { if m { assert(t[c + 1] == cl[1]); assert(jspace(ch1(32))); } lemma_ws_to(t, c + 1, y); }
    lemma_jval_ws(t); assert(jval(t, ws(t, c + 1)) == jval(t, c + 1));
    let x = y + r.len();
    assert(XString { data_: u8split(flat(o[k].first.data_)) } == o[k].first);
    lemma_set_new(o, k);
    lemma_jobj_def(t, i, o.take(k));
    if k + 1 < o.len() {
        lemma_mem_start(t, x, j, k + 1, m, b, n);
        let cm = comma(m, k + 1); lemma_has_at(t, x, cm); assert(t[x] == cm[0]); lemma_has_one(t, x, ch1(44), nl(m));
        lemma_back(t, y, v, m, b, nx(m, b, n));
        let q = x + cm.len() + blanks(m, n).len();
        lemma_ws_to(t, x, x); lemma_pad(m, n); lemma_has_ws(t, x + 1, nl(m), blanks(m, n));
        lemma_back_obj(t, q, j, k + 1, m, b, n);
    } else {
        reveal(rend); reveal(rmem); reveal(relm);
        assert(rest == Seq::<XChar>::empty());
        lemma_ending_at(t, x, m, b, n, true, 125);
        lemma_back(t, y, v, m, b, nx(m, b, n));
        lemma_ws(t, x);
        assert(o.take(k + 1) =~= o);
    }
}
// C13: the text of a plain value is that value's text again, and a plain object's is a document with that object as its root
pub proof fn theorem_back(j: Jd, m: bool, b: int, n: int)
    requires wf(j), plain(j)
    ensures jval(rend(j, m, b, n), 0) == Some((j, rend(j, m, b, n).len() as int)), j.data_ is object_value ==> jdoc(rend(j, m, b, n)) == Some(j)
{
    broadcast use lemma_is1b;
    let t = rend(j, m, b, n);
    assert(t.subrange(0, t.len() as int) =~= t);
    lemma_back(t, 0, j, m, b, n);
    if j.data_ is object_value {
        reveal(rend); reveal(rmem); reveal(relm);
        assert(t[0] == ch1(123)); assert(!jspace(ch1(123))); lemma_ws_to(t, 0, 0);
        lemma_ws(t, t.len() as int);
    }
}
