// ---- what a JSON text denotes. Positions count characters; a result is the value and the position after it.
pub type Jr = Option<(Jd, int)>;
pub open spec fn jspace(c: XChar) -> bool { uc_space(utf8_cp(c.data_)) }
pub open spec fn ws(t: Seq<XChar>, i: int) -> int
    decreases t.len() - i
{ if 0 <= i < t.len() && jspace(t[i]) { ws(t, i + 1) } else { i } }
// an escape; i is the character after the reverse solidus
pub open spec fn jesc1(c: XChar) -> int {
    if is1(c, 34) { 34 } else if is1(c, 92) { 92 } else if is1(c, 47) { 47 } else if is1(c, 98) { 8 } else if is1(c, 102) { 12 } else if is1(c, 110) { 10 } else if is1(c, 114) { 13 } else if is1(c, 116) { 9 } else { -1 }
}
pub open spec fn is_high(u: int) -> bool { 0xD800 <= u <= 0xDBFF }
pub open spec fn is_low(u: int) -> bool { 0xDC00 <= u <= 0xDFFF }
pub open spec fn jesc(t: Seq<XChar>, i: int) -> Option<(Seq<u8>, int)> {
    if !(0 <= i < t.len()) { None }
    else if jesc1(t[i]) >= 0 { Some((seq![jesc1(t[i]) as u8], i + 1)) }
    else if at1(t, i, 117) && hex4(t, i + 1) {
        let u = hex4_val(t, i + 1);
        if is_high(u) {
            if at1(t, i + 5, 92) && at1(t, i + 6, 117) && hex4(t, i + 7) && is_low(hex4_val(t, i + 7)) { Some((utf8_enc((0x10000 + (u - 0xD800) * 0x400 + (hex4_val(t, i + 7) - 0xDC00)) as u32), i + 11)) }
            else { None }
        } else if is_low(u) || u == 0 { None } else { Some((utf8_enc(u as u32), i + 5)) }
    } else { None }
}
// the rest of a string: its text is acc and what follows up to the quotation mark
pub open spec fn jstr(t: Seq<XChar>, i: int, acc: Seq<u8>) -> Option<(Seq<u8>, int)>
    decreases t.len() - i
{
    if !(0 <= i < t.len()) { None }
    else if at1(t, i, 34) { Some((acc, i + 1)) }
    else if at1(t, i, 92) { match jesc(t, i + 1) { None => None, Some((b, n)) => if n > i { jstr(t, n, acc + b) } else { None } } }
    else { jstr(t, i + 1, acc + upto_nul(t[i].data_)) }
}
// numbers: the longest run of number characters has to be a numeral
pub open spec fn numchar(c: XChar) -> bool { udig(c) || is1(c, 46) || is1(c, 101) || is1(c, 69) || is1(c, 45) || is1(c, 43) }
pub open spec fn numend(t: Seq<XChar>, i: int) -> int
    decreases t.len() - i
{ if 0 <= i < t.len() && numchar(t[i]) { numend(t, i + 1) } else { i } }
pub open spec fn digs(s: Seq<u8>, i: int) -> int
    decreases s.len() - i
{ if 0 <= i < s.len() && is_dig(s[i]) { digs(s, i + 1) } else { i } }
pub open spec fn signs(s: Seq<u8>, i: int) -> int { if str_at(s, i) == 45 || str_at(s, i) == 43 { i + 1 } else { i } }
// [sign] digits [. digits] [e [sign] digits]
pub open spec fn numeral_frac(s: Seq<u8>, i: int) -> int { if str_at(s, i) == 46 { if digs(s, i + 1) > i + 1 { digs(s, i + 1) } else { -1 } } else { i } }
pub open spec fn numeral_exp(s: Seq<u8>, i: int) -> int {
    if str_at(s, i) == 101 || str_at(s, i) == 69 { if digs(s, signs(s, i + 1)) > signs(s, i + 1) { digs(s, signs(s, i + 1)) } else { -1 } } else { i }
}
pub open spec fn is_numeral(s: Seq<u8>) -> bool {
    let a = digs(s, signs(s, 0)); let b = numeral_frac(s, a); let c = numeral_exp(s, b);
    a > signs(s, 0) && b >= 0 && c == s.len()
}
pub open spec fn is_real(t: Seq<XChar>) -> bool { exists|k: int| #[trigger] realmark(t, k) }
pub open spec fn realmark(t: Seq<XChar>, k: int) -> bool { at1(t, k, 46) || at1(t, k, 101) || at1(t, k, 69) }
pub open spec fn jnum(t: Seq<XChar>, i: int) -> Jr {
    let e = numend(t, i); let d = t.subrange(i, e); let s = flat(d);
    if !is_numeral(s) { None }
    else if is_real(d) { if stod_valid(s) && !stod_range(s) { Some((jfloat(cast_F64_F32(stod_val(s))), e)) } else { None } }
    else if -0x8000_0000_0000_0000 <= sto_val(s, 10) <= 0x7fff_ffff_ffff_ffff { Some((jint(sto_val(s, 10)), e)) } else { None }
}
pub open spec fn word(t: Seq<XChar>, i: int, w: Seq<u8>) -> bool { 0 <= i <= t.len() && flat(t.subrange(i, if i + w.len() <= t.len() { i + w.len() } else { t.len() as int })) =~= w }
pub open spec fn w_true() -> Seq<u8> { seq![116u8, 114u8, 117u8, 101u8] }
pub open spec fn w_false() -> Seq<u8> { seq![102u8, 97u8, 108u8, 115u8, 101u8] }
pub open spec fn w_null() -> Seq<u8> { seq![110u8, 117u8, 108u8, 108u8] }
pub open spec fn jword(t: Seq<XChar>, i: int) -> Jr {
    if word(t, i, w_true()) { Some((jbool(true), i + 4)) } else if word(t, i, w_false()) { Some((jbool(false), i + 5)) } else { None }
}
pub open spec fn jnullword(t: Seq<XChar>, i: int) -> Jr { if word(t, i, w_null()) { Some((jnull(), i + 4)) } else { None } }
pub open spec fn jtext(t: Seq<XChar>, i: int) -> Jr { match jstr(t, i, Seq::empty()) { None => None, Some((b, n)) => Some((jstring(u8split(b)), n)) } }
#[verifier::opaque]
pub open spec fn jval(t: Seq<XChar>, i: int) -> Jr
    decreases t.len() - i, 1int
{
    let p = ws(t, i);
    if !(i <= p && 0 <= p < t.len()) { None }
    else if at1(t, p, 34) { jtext(t, p + 1) }
    else if at1(t, p, 123) { if i < ws(t, p + 1) <= t.len() { jobj(t, ws(t, p + 1), Seq::empty()) } else { None } }
    else if at1(t, p, 91) { if i < ws(t, p + 1) <= t.len() { jarr(t, ws(t, p + 1), Seq::empty()) } else { None } }
    else if at1(t, p, 116) || at1(t, p, 102) { jword(t, p) }
    else if at1(t, p, 110) { jnullword(t, p) }
    else if udig(t[p]) || at1(t, p, 45) || at1(t, p, 43) { jnum(t, p) }
    else { None }
}
// the rest of an object with the members o, at a member or at the closing bracket
#[verifier::opaque]
pub open spec fn jobj(t: Seq<XChar>, i: int, o: Seq<Mem>) -> Jr
    decreases t.len() - i, 0int
{
    if i < 0 { None }
    else if at1(t, i, 125) { Some((jobject(o), i + 1)) }
    else if !at1(t, i, 34) { None }
    else {
        match jstr(t, i + 1, Seq::empty()) {
            None => None,
            Some((k, n)) => {
                let c = ws(t, n);
                if !(at1(t, c, 58) && c > i) { None }
                else {
                    match jval(t, c + 1) {
                        None => None,
                        Some((v, m)) => {
                            let e = ws(t, m); let o2 = set_key(o, XString { data_: u8split(k) }, v);
                            if at1(t, e, 44) { let q = ws(t, e + 1); if !at1(t, q, 125) && i < q <= t.len() { jobj(t, q, o2) } else { None } }
                            else if at1(t, e, 125) { Some((jobject(o2), e + 1)) } else { None }
                        }
                    }
                }
            }
        }
    }
}
#[verifier::opaque]
pub open spec fn jarr(t: Seq<XChar>, i: int, a: Seq<Own<Jd>>) -> Jr
    decreases t.len() - i, 2int
{
    if !(0 <= i < t.len()) { None }
    else if at1(t, i, 93) { Some((jarray(a), i + 1)) }
    else {
        match jval(t, i) {
            None => None,
            Some((v, m)) => {
                let e = ws(t, m); let a2 = a.push(Own::Live(v));
                if at1(t, e, 44) { let q = ws(t, e + 1); if !at1(t, q, 93) && i < q <= t.len() { jarr(t, q, a2) } else { None } }
                else if at1(t, e, 93) { Some((jarray(a2), e + 1)) } else { None }
            }
        }
    }
}
// jval, unfolded once
pub proof fn lemma_jval_def(t: Seq<XChar>, i: int)
    ensures jval(t, i) == ({
    let p = ws(t, i);
    if !(i <= p && 0 <= p < t.len()) { None }
    else if at1(t, p, 34) { jtext(t, p + 1) }
    else if at1(t, p, 123) { if i < ws(t, p + 1) <= t.len() { jobj(t, ws(t, p + 1), Seq::empty()) } else { None } }
    else if at1(t, p, 91) { if i < ws(t, p + 1) <= t.len() { jarr(t, ws(t, p + 1), Seq::empty()) } else { None } }
    else if at1(t, p, 116) || at1(t, p, 102) { jword(t, p) }
    else if at1(t, p, 110) { jnullword(t, p) }
    else if udig(t[p]) || at1(t, p, 45) || at1(t, p, 43) { jnum(t, p) }
    else { None }
    })
{ reveal(jval); reveal(jobj); reveal(jarr); }
// jobj, unfolded once
pub proof fn lemma_jobj_def(t: Seq<XChar>, i: int, o: Seq<Mem>)
    ensures jobj(t, i, o) == ({
    if i < 0 { None }
    else if at1(t, i, 125) { Some((jobject(o), i + 1)) }
    else if !at1(t, i, 34) { None }
    else {
        match jstr(t, i + 1, Seq::empty()) {
            None => None,
            Some((k, n)) => {
                let c = ws(t, n);
                if !(at1(t, c, 58) && c > i) { None }
                else {
                    match jval(t, c + 1) {
                        None => None,
                        Some((v, m)) => {
                            let e = ws(t, m); let o2 = set_key(o, XString { data_: u8split(k) }, v);
                            if at1(t, e, 44) { let q = ws(t, e + 1); if !at1(t, q, 125) && i < q <= t.len() { jobj(t, q, o2) } else { None } }
                            else if at1(t, e, 125) { Some((jobject(o2), e + 1)) } else { None }
                        }
                    }
                }
            }
        }
    }
    })
{ reveal(jval); reveal(jobj); reveal(jarr); }
// jarr, unfolded once
pub proof fn lemma_jarr_def(t: Seq<XChar>, i: int, a: Seq<Own<Jd>>)
    ensures jarr(t, i, a) == ({
    if !(0 <= i < t.len()) { None }
    else if at1(t, i, 93) { Some((jarray(a), i + 1)) }
    else {
        match jval(t, i) {
            None => None,
            Some((v, m)) => {
                let e = ws(t, m); let a2 = a.push(Own::Live(v));
                if at1(t, e, 44) { let q = ws(t, e + 1); if !at1(t, q, 93) && i < q <= t.len() { jarr(t, q, a2) } else { None } }
                else if at1(t, e, 93) { Some((jarray(a2), e + 1)) } else { None }
            }
        }
    }
    })
{ reveal(jval); reveal(jobj); reveal(jarr); }
pub proof fn lemma_jval_ws(t: Seq<XChar>)
    ensures forall|j: int| 0 <= j <= t.len() ==> jval(t, #[trigger] ws(t, j)) == jval(t, j)
{
    assert forall|j: int| 0 <= j <= t.len() implies jval(t, #[trigger] ws(t, j)) == jval(t, j) by {
        lemma_ws(t, j); lemma_jval_def(t, j); lemma_jval_def(t, ws(t, j));
        let p = ws(t, j); if p < t.len() { lemma_ws(t, p + 1); }
    }
}
// a document is an object and nothing else
pub open spec fn jdoc(t: Seq<XChar>) -> Option<Jd> {
    if !at1(t, ws(t, 0), 123) { None } else { match jval(t, 0) { None => None, Some((v, n)) => if ws(t, n) == t.len() { Some(v) } else { None } } }
}
pub proof fn lemma_ws(t: Seq<XChar>, i: int)
    ensures i <= ws(t, i), 0 <= i <= t.len() ==> ws(t, i) <= t.len(), 0 <= ws(t, i) < t.len() ==> !jspace(t[ws(t, i)]), ws(t, ws(t, i)) == ws(t, i),
        forall|k: int| i <= k < ws(t, i) ==> 0 <= k < t.len() && jspace(#[trigger] t[k])
    decreases t.len() - i
{ if 0 <= i < t.len() && jspace(t[i]) { lemma_ws(t, i + 1); } }
pub proof fn lemma_ws_to(t: Seq<XChar>, i: int, j: int)
    requires 0 <= i <= j <= t.len(), forall|k: int| i <= k < j ==> jspace(#[trigger] t[k]), j < t.len() ==> !jspace(t[j])
    ensures ws(t, i) == j
    decreases j - i
{ if i < j { lemma_ws_to(t, i + 1, j); } }
pub proof fn lemma_numend(t: Seq<XChar>, i: int)
    ensures i <= numend(t, i), 0 <= i <= t.len() ==> numend(t, i) <= t.len()
    decreases t.len() - i
{ if 0 <= i < t.len() && numchar(t[i]) { lemma_numend(t, i + 1); } }
pub proof fn lemma_digs(s: Seq<u8>, i: int)
    ensures i <= digs(s, i), 0 <= i <= s.len() ==> digs(s, i) <= s.len()
    decreases s.len() - i
{ if 0 <= i < s.len() && is_dig(s[i]) { lemma_digs(s, i + 1); } }
pub proof fn lemma_signs(s: Seq<u8>, i: int)
    requires 0 <= i <= s.len()
    ensures i <= signs(s, i) <= s.len()
{}
pub proof fn lemma_occ_one(s: Seq<XChar>, p: Seq<XChar>)
    requires p.len() == 1
    ensures forall|k: int| #[trigger] occurs_at(s, p, k) <==> 0 <= k < s.len() && s[k] == p[0]
{
    assert forall|k: int| #[trigger] occurs_at(s, p, k) <==> 0 <= k < s.len() && s[k] == p[0] by {
        if 0 <= k < s.len() {
            assert(s.subrange(k, k + 1)[0] == s[k]);
            if s[k] == p[0] { assert(s.subrange(k, k + 1) =~= p); }
            if s.subrange(k, k + 1) =~= p { assert(s[k] == p[0]); }
        }
    }
}
// what Find from the start reports for a one-character text
pub proof fn lemma_find_one(s: Seq<XChar>, p: Seq<XChar>, r: u64)
    requires p.len() == 1, r == 0xffff_ffff_ffff_ffff ==> forall|k: int| 0 <= k ==> !#[trigger] occurs_at(s, p, k), r != 0xffff_ffff_ffff_ffff ==> occurs_at(s, p, r as int)
    ensures r == 0xffff_ffff_ffff_ffff ==> forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] != p[0], r != 0xffff_ffff_ffff_ffff ==> r < s.len() && s[r as int] == p[0]
{
    lemma_occ_one(s, p);
    if r == 0xffff_ffff_ffff_ffff { assert forall|k: int| 0 <= k < s.len() implies #[trigger] s[k] != p[0] by { assert(!occurs_at(s, p, k)); } }
}
pub proof fn lemma_is1(c: XChar, b: u8)
    ensures is1(c, b) <==> c == ch1(b)
{ if is1(c, b) { assert(c.data_ =~= seq![b]); } }
pub broadcast proof fn lemma_is1b(c: XChar, b: u8)
    ensures #[trigger] is1(c, b) <==> c == ch1(b), is1(c, b) ==> one(c) == b
{ lemma_is1(c, b); }
pub proof fn lemma_sto_more(s: Seq<u8>, i: int)
    requires 0 <= i <= s.len()
    ensures sto_digits(s, i, 10) >= digs(s, i)
    decreases s.len() - i
{ if i < s.len() { if is_dig(s[i]) { lemma_sto_more(s, i + 1); } else if dig_val(s[i], 10) >= 0 { assert(false); } } }
pub proof fn lemma_numeral_sto(s: Seq<u8>)
    requires is_numeral(s)
    ensures sto_valid(s, 10)
{
    let a = signs(s, 0);
    assert(a < s.len()) by { lemma_digs(s, a); if a >= s.len() { assert(digs(s, a) == a); } }
    assert(is_dig(s[a]));
    assert(!is_cspace(s[0]));
    assert(sto_skip(s, 0) == 0);
    assert(sto_start(s, 10) == a);
    lemma_sto_more(s, a);
}
pub proof fn lemma_flat_ascii(t: Seq<XChar>)
    requires sok(t), ascii(flat(t))
    ensures flat(t).len() <= t.len()
    decreases t.len()
{
    if t.len() > 0 {
        let u = t.drop_last(); let c = t.last().data_; let b = upto_nul(c);
        assert forall|i: int| 0 <= i < u.len() implies char_ok((#[trigger] u[i]).data_) by { assert(u[i] == t[i]); }
        assert forall|k: int| 0 <= k < flat(u).len() implies #[trigger] flat(u)[k] < 0x80 by { assert(flat(u)[k] == flat(t)[k]); }
        assert forall|k: int| 0 <= k < b.len() implies #[trigger] b[k] < 0x80 by { assert(b[k] == flat(t)[flat(u).len() + k]); }
        lemma_flat_ascii(u);
        assert(char_ok(t[t.len() - 1].data_));
        lemma_nulpos(c, 0);
        if b.len() > 0 { assert(b[0] == c[0]); assert(c.len() == 1); }
    }
}
pub proof fn lemma_word(t: Seq<XChar>, i: int, w: Seq<u8>)
    requires sok(t), 0 <= i <= t.len(), word(t, i, w), ascii(w)
    ensures i + w.len() <= t.len()
{
    let e = if i + w.len() <= t.len() { i + w.len() } else { t.len() as int };
    lemma_sok_sub(t, i, e);
    lemma_flat_ascii(t.subrange(i, e));
}
// an object ends with its closing bracket
pub proof fn lemma_obj_end(t: Seq<XChar>, i: int, o: Seq<Mem>)
    ensures match jobj(t, i, o) { None => true, Some((v, n)) => at1(t, n - 1, 125) }
    decreases t.len() - i
{
    broadcast use lemma_is1b;
    lemma_jobj_def(t, i, o);
    if !at1(t, i, 125) && at1(t, i, 34) {
        match jstr(t, i + 1, Seq::empty()) {
            None => {},
            Some((k, n)) => {
                let c = ws(t, n);
                if at1(t, c, 58) && c > i {
                    match jval(t, c + 1) {
                        None => {},
                        Some((v, m)) => {
                            let e = ws(t, m); let q = ws(t, e + 1);
                            if at1(t, e, 44) && i < q <= t.len() { if q <= t.len() { lemma_obj_end(t, q, set_key(o, XString { data_: u8split(k) }, v)); } }
                        }
                    }
                }
            }
        }
    }
}
pub proof fn lemma_doc_end(t: Seq<XChar>)
    ensures at1(t, ws(t, 0), 123) ==> match jval(t, 0) { None => true, Some((v, n)) => at1(t, n - 1, 125) }
{ broadcast use lemma_is1b; lemma_jval_def(t, 0); lemma_obj_end(t, ws(t, ws(t, 0) + 1), Seq::empty()); }
pub proof fn lemma_hex4_range(s: Seq<XChar>, i: int)
    ensures hex4(s, i) ==> 0 <= hex4_val(s, i) < 0x1_0000
{}
// one step through a string keeps its text well-formed
pub proof fn lemma_jstr_clean(t: Seq<XChar>, i: int, acc: Seq<u8>)
    requires sok(t), 0 <= i < t.len(), clean(acc), !at1(t, i, 34)
    ensures
        at1(t, i, 92) ==> (match jesc(t, i + 1) { None => true, Some((b, n)) => clean(acc + b) }),
        !at1(t, i, 92) ==> clean(acc + upto_nul(t[i].data_))
{
    if at1(t, i, 92) {
        match jesc(t, i + 1) {
            None => {},
            Some((b, n)) => {
                lemma_hex4_range(t, i + 2); lemma_hex4_range(t, i + 8);
                if jesc1(t[i + 1]) >= 0 { lemma_ok1(jesc1(t[i + 1]) as u8); } else {
                    let u = hex4_val(t, i + 2);
                    if is_high(u) { lemma_enc_clean((0x10000 + (u - 0xD800) * 0x400 + (hex4_val(t, i + 8) - 0xDC00)) as u32); } else { lemma_enc_clean(u as u32); }
                }
                lemma_clean_cat(acc, b);
            }
        }
    } else {
        assert(char_ok(t[i].data_));
        lemma_u8_one(t[i].data_);
        lemma_clean_cat(acc, upto_nul(t[i].data_));
    }
}
pub proof fn lemma_lits()
    ensures cstr_bytes(lit(w_true())) =~= w_true(), cstr_bytes(lit(w_false())) =~= w_false(), cstr_bytes(lit(w_null())) =~= w_null(), ascii(w_true()), ascii(w_false()), ascii(w_null())
{ lemma_nulpos_clean(w_true()); lemma_nulpos_clean(w_false()); lemma_nulpos_clean(w_null()); }
// the first and the last character that are no space, and what follows the root object
pub proof fn lemma_doc(t: Seq<XChar>)
    ensures
        jdoc(t) is Some ==> exists|k: int| at1(t, k, 125) && (forall|m: int| k < m < t.len() ==> jspace(#[trigger] t[m])),
{
    lemma_doc_end(t);
    if let Some(v) = jdoc(t) {
        let n = jval(t, 0)->Some_0.1;
        lemma_ws(t, n);
        assert(at1(t, n - 1, 125) && (forall|m: int| n - 1 < m < t.len() ==> jspace(#[trigger] t[m])));
    }
}
pub open spec fn last_nonspace(t: Seq<XChar>, l: int) -> bool {
    0 <= l <= t.len() && (l < t.len() ==> !jspace(t[l]) && (forall|k: int| l < k < t.len() ==> jspace(#[trigger] t[k])))
    && (l == t.len() ==> forall|k: int| 0 <= k < l ==> jspace(#[trigger] t[k]))
}
pub proof fn lemma_bracket_nospace(c: XChar, b: u8)
    requires is1(c, b), b == 123 || b == 125
    ensures !jspace(c)
{ assert(c.data_[0] == b && c.data_.len() == 1); assert(utf8_cp(c.data_) == b as u32); }
// a document ends with the bracket of its object
pub proof fn lemma_doc_last(t: Seq<XChar>, l: int)
    requires last_nonspace(t, l)
    ensures jdoc(t) is Some ==> at1(t, l, 125)
{
    lemma_doc(t);
    if jdoc(t) is Some {
        let k = choose|k: int| at1(t, k, 125) && (forall|m: int| k < m < t.len() ==> jspace(#[trigger] t[m]));
        lemma_bracket_nospace(t[k], 125);
        if l < k { assert(jspace(t[k])); }
        if l > k && l < t.len() { assert(jspace(t[l])); }
        assert(l < t.len()) by { if l == t.len() { assert(jspace(t[k])); } }
    }
}
pub proof fn lemma_tail(t: Seq<XChar>, l: int)
    requires last_nonspace(t, l)
    ensures l < t.len() ==> forall|n: int| 0 <= n <= t.len() ==> (n <= l <==> #[trigger] ws(t, n) != t.len())
{
    if l < t.len() {
        assert forall|n: int| 0 <= n <= t.len() implies (n <= l <==> #[trigger] ws(t, n) != t.len()) by {
            lemma_ws(t, n);
            if n > l { lemma_ws_to(t, n, t.len() as int); }
        }
    }
}
// the messages are plain text
pub broadcast proof fn lemma_plain_cstr(c: CStr)
    requires c.off == 0, forall|i: int| 0 <= i < c.buf.len() ==> 0 < #[trigger] c.buf[i] < 0x80
    ensures cstr_bytes(c) == c.buf, #[trigger] u8ok(cstr_bytes(c)), sok(u8split(c.buf)), flat(u8split(c.buf)) == c.buf, c.buf.len() > 0 ==> u8split(c.buf).len() > 0
{
    assert(c == lit(c.buf)); lemma_nulpos_clean(c.buf); lemma_ascii(c.buf); lemma_text_roundtrip(c.buf);
    if u8split(c.buf).len() == 0 { assert(flat(u8split(c.buf)).len() == 0); }
}
