// ---- String::Format: [[fill]align][width][.precision][type]
// first index at or after i whose character is not a digit / is the byte b; the length when there is none
pub open spec fn run_end(s: Seq<XChar>, i: int) -> int
    decreases s.len() - i
{ if 0 <= i < s.len() && udig(s[i]) { run_end(s, i + 1) } else { i } }
pub open spec fn chfind(s: Seq<XChar>, b: u8, i: int) -> int
    decreases s.len() - i
{ if i < 0 || i >= s.len() || is1(s[i], b) { i } else { chfind(s, b, i + 1) } }
// alignment mark: 0 left, 1 right, 2 centre
pub open spec fn mark(s: Seq<XChar>, i: int) -> int {
    if at1(s, i, 60) { 0 } else if at1(s, i, 62) { 1 } else if at1(s, i, 94) { 2 } else { -1 }
}
pub struct Align { pub fill: XChar, pub side: int, pub pos: int }
pub open spec fn f_align(s: Seq<XChar>, p: int) -> Align {
    if mark(s, p + 1) >= 0 { Align { fill: s[p], side: mark(s, p + 1), pos: p + 2 } }
    else if mark(s, p) >= 0 { Align { fill: ch1(32), side: mark(s, p), pos: p + 1 } }
    else { Align { fill: ch1(32), side: 0, pos: p } }
}
pub struct Num { pub ok: bool, pub val: int, pub pos: int }
// the number the text at p starts with, when it starts with a digit
pub open spec fn f_num(s: Seq<XChar>, p: int, none: int, max: int) -> Num {
    if 0 <= p < s.len() && udig(s[p]) {
        let t = flat(s.subrange(p, s.len() as int));
        Num { ok: sto_valid(t, 10) && sto_abs(t, 10) <= max, val: sto_val(t, 10), pos: run_end(s, p) }
    } else { Num { ok: true, val: none, pos: p } }
}
pub open spec fn f_prec(s: Seq<XChar>, p: int) -> Num {
    if at1(s, p, 46) { f_num(s, p + 1, -1, 0x7fff_ffff) } else { Num { ok: true, val: -1, pos: p } }
}
// type: 0 text, 1 integral, 2 floating
pub open spec fn f_type(s: Seq<XChar>, p: int) -> int { if at1(s, p, 100) { 1 } else if at1(s, p, 102) { 2 } else { 0 } }
pub struct Lay { pub ok: bool, pub fill: XChar, pub side: int, pub width: int, pub prec: int, pub ty: int }
#[verifier::opaque]
pub open spec fn f_layout(s: Seq<XChar>) -> Lay {
    let a = f_align(s, 1);
    let w = f_num(s, a.pos, 0, 0xffff_ffff_ffff_ffff);
    let q = f_prec(s, w.pos);
    Lay { ok: at1(s, 0, 58) && w.ok && q.ok, fill: a.fill, side: a.side, width: w.val, prec: q.val, ty: f_type(s, q.pos) }
}
pub open spec fn fill_n(c: XChar, n: int) -> Seq<XChar> { Seq::new((if n > 0 { n } else { 0 }) as nat, |i: int| c) }
pub open spec fn padded(v: Seq<XChar>, fill: XChar, side: int, width: int) -> Seq<XChar> {
    let n = width - v.len();
    if n <= 0 { v } else if side == 0 { v + fill_n(fill, n) } else if side == 1 { fill_n(fill, n) + v }
    else { fill_n(fill, n / 2) + v + fill_n(fill, n - n / 2) }
}
pub open spec fn zeros(n: int) -> Seq<u8> { Seq::new((if n > 0 { n } else { 0 }) as nat, |i: int| 48u8) }
pub open spec fn upto(a: int, b: int) -> int { if a < b { a } else { b } }
// a number with exactly `prec` fraction digits
#[verifier::opaque]
pub open spec fn fixed(v: Seq<XChar>, prec: int) -> Seq<u8> {
    let dot = chfind(v, 46, 0);
    if dot < v.len() {
        let e = upto(run_end(v, dot + 1), dot + 1 + (if prec > 0 { prec } else { 0 }));
        flat(v.subrange(0, dot + 1)) + flat(v.subrange(dot + 1, e)) + zeros(prec - (e - dot - 1))
    } else if prec > 0 { flat(v) + seq![46u8] + zeros(prec) } else { flat(v) }
}
#[verifier::opaque]
pub open spec fn laid(v: Seq<XChar>, l: Lay) -> Seq<XChar> {
    padded(if l.ty == 2 { u8split(fixed(v, l.prec)) } else { v }, l.fill, l.side, l.width)
}
pub open spec fn lay(s: XString_Formatter_FormatSpecifier) -> Lay {
    Lay { ok: true, fill: s.fill, side: s.align as int, width: s.width as int, prec: s.precision as int, ty: s.type_k as int }
}
pub struct Out { pub ok: bool, pub text: Seq<u8>, pub auto: int }
pub open spec fn bad() -> Out { Out { ok: false, text: Seq::empty(), auto: 0 } }
pub open spec fn one_arg(v: Seq<XChar>, spec: Seq<XChar>, auto: int) -> Out {
    if spec.len() == 0 { Out { ok: true, text: flat(v), auto: auto } }
    else if at1(spec, 0, 58) { let l = f_layout(spec); Out { ok: l.ok, text: flat(laid(v, l)), auto: auto } }
    else { Out { ok: true, text: Seq::empty(), auto: auto } }
}
// one placeholder, between its braces
pub open spec fn place(spec: Seq<XChar>, args: Seq<XString>, auto: int) -> Out {
    if spec.len() > 0 && udig(spec[0]) {
        let e = run_end(spec, 0);
        let t = flat(spec.subrange(0, e));
        let n = sto_u(t, 10) as int;
        if !sto_valid(t, 10) || !sto_u_fits(t, 10) || n >= args.len() { bad() } else { one_arg(args[n].data_, spec.subrange(e, spec.len() as int), auto) }
    } else {
        let n = if args.len() > 1 { auto } else { 0 };
        if n >= args.len() { bad() }
        else { one_arg(args[n].data_, if at1(spec, 0, 58) { spec } else { Seq::empty() }, if args.len() > 1 { auto + 1 } else { auto }) }
    }
}
pub open spec fn then(a: Seq<u8>, b: Out) -> Out { Out { text: a + b.text, ..b } }
// the piece that starts at i: its text, and where the next one starts
pub struct Step { pub ok: bool, pub text: Seq<u8>, pub pos: int, pub auto: int }
pub open spec fn no_step() -> Step { Step { ok: false, text: Seq::empty(), pos: 0, auto: 0 } }
pub open spec fn step(f: Seq<XChar>, args: Seq<XString>, i: int, auto: int) -> Step {
    if is1(f[i], 123) {
        let e = chfind(f, 125, i);
        if at1(f, i + 1, 123) { Step { ok: true, text: seq![123u8], pos: i + 2, auto: auto } }
        else if e >= f.len() || e <= i { no_step() }
        else {
            let p = place(f.subrange(i + 1, e), args, auto);
            if p.ok { Step { ok: true, text: p.text, pos: e + 1, auto: p.auto } } else { no_step() }
        }
    } else if is1(f[i], 125) {
        if at1(f, i + 1, 125) { Step { ok: true, text: seq![125u8], pos: i + 2, auto: auto } } else { no_step() }
    } else { Step { ok: true, text: upto_nul(f[i].data_), pos: i + 1, auto: auto } }
}
pub open spec fn fmt(f: Seq<XChar>, args: Seq<XString>, i: int, auto: int) -> Out
    decreases f.len() - i
{
    if i < 0 || i >= f.len() { Out { ok: true, text: Seq::empty(), auto: auto } }
    else {
        let s = step(f, args, i, auto);
        if !s.ok || s.pos <= i { bad() } else { then(s.text, fmt(f, args, s.pos, s.auto)) }
    }
}
pub proof fn lemma_run_end(s: Seq<XChar>, i: int)
    requires 0 <= i <= s.len()
    ensures i <= run_end(s, i) <= s.len(), run_end(s, i) < s.len() ==> !udig(s[run_end(s, i)]), forall|k: int| i <= k < run_end(s, i) ==> udig(#[trigger] s[k])
    decreases s.len() - i
{ if i < s.len() && udig(s[i]) { lemma_run_end(s, i + 1); } }
pub proof fn lemma_chfind(s: Seq<XChar>, b: u8, i: int)
    requires 0 <= i <= s.len()
    ensures i <= chfind(s, b, i) <= s.len(), chfind(s, b, i) < s.len() ==> is1(s[chfind(s, b, i)], b), forall|k: int| i <= k < chfind(s, b, i) ==> !is1(#[trigger] s[k], b)
    decreases s.len() - i
{ if i < s.len() && !is1(s[i], b) { lemma_chfind(s, b, i + 1); } }
// what Find reports for a one-character text is chfind
pub proof fn lemma_occ1(s: Seq<XChar>, p: Seq<XChar>, b: u8, k: int)
    requires p =~= seq![ch1(b)]
    ensures occurs_at(s, p, k) <==> at1(s, k, b)
{
    if 0 <= k < s.len() {
        assert(s.subrange(k, k + 1)[0] == s[k]);
        if is1(s[k], b) { assert(s[k] =~= ch1(b)); assert(s.subrange(k, k + 1) =~= p); }
        if s.subrange(k, k + 1) =~= p { assert(s[k] == p[0]); }
    }
}
pub proof fn lemma_find1(s: Seq<XChar>, p: Seq<XChar>, b: u8, i: int, r: u64)
    requires p =~= seq![ch1(b)], 0 <= i <= s.len(),
        r == 0xffff_ffff_ffff_ffff ==> forall|k: int| i <= k ==> !#[trigger] occurs_at(s, p, k),
        r != 0xffff_ffff_ffff_ffff ==> i <= r && occurs_at(s, p, r as int) && forall|k: int| i <= k < r ==> !#[trigger] occurs_at(s, p, k)
    ensures r == 0xffff_ffff_ffff_ffff ==> chfind(s, b, i) == s.len(), r != 0xffff_ffff_ffff_ffff ==> chfind(s, b, i) == r && r < s.len()
{
    lemma_chfind(s, b, i);
    let c = chfind(s, b, i);
    lemma_occ1(s, p, b, c);
    lemma_occ1(s, p, b, r as int);
}
pub proof fn lemma_base_nonneg(s: Seq<u8>, base: int)
    requires base >= 0, forall|i: int| 0 <= i < s.len() ==> dig_val(#[trigger] s[i], base) >= 0
    ensures base_val(s, base) >= 0
    decreases s.len()
{
    if s.len() > 0 {
        assert(dig_val(s[s.len() - 1], base) >= 0);
        assert forall|i: int| 0 <= i < s.drop_last().len() implies dig_val(#[trigger] s.drop_last()[i], base) >= 0 by { assert(s.drop_last()[i] == s[i]); }
        lemma_base_nonneg(s.drop_last(), base);
        assert(base_val(s.drop_last(), base) * base >= 0) by (nonlinear_arith) requires base_val(s.drop_last(), base) >= 0, base >= 0;
    }
}
pub proof fn lemma_sto_digits_are(s: Seq<u8>, i: int, base: int)
    requires 0 <= i <= s.len()
    ensures i <= sto_digits(s, i, base) <= s.len(), forall|k: int| i <= k < sto_digits(s, i, base) ==> dig_val(#[trigger] s[k], base) >= 0
    decreases s.len() - i
{ if i < s.len() && dig_val(s[i], base) >= 0 { lemma_sto_digits_are(s, i + 1, base); } }
pub proof fn lemma_flat_first(t: Seq<XChar>)
    requires t.len() > 0
    ensures flat(t) =~= upto_nul(t[0].data_) + flat(t.skip(1))
{ lemma_flat_append(seq![t[0]], t.skip(1)); lemma_flat_one(t[0]); assert(seq![t[0]] + t.skip(1) =~= t); }
// a text that starts with a digit has no sign and no leading space
pub proof fn lemma_num_text(t: Seq<XChar>)
    requires sok(t), t.len() > 0, udig(t[0])
    ensures !sto_neg(flat(t)), sto_val(flat(t), 10) == sto_abs(flat(t), 10), sto_abs(flat(t), 10) >= 0
{
    assert(char_ok(t[0].data_));
    let c = t[0].data_;
    lemma_flat_first(t);
    lemma_nulpos(c, 0);
    assert(c.len() > 0 && c[0] != 0);
    let b = flat(t);
    assert(b[0] == c[0]);
    assert(is_dig(c[0]) || c[0] >= 0x80);
    assert(sto_skip(b, 0) == 0);
    lemma_sto_digits_are(b, 0, 10);
    let d = b.subrange(sto_start(b, 10), sto_digits(b, sto_start(b, 10), 10));
    assert forall|i: int| 0 <= i < d.len() implies dig_val(#[trigger] d[i], 10) >= 0 by { assert(d[i] == b[i]); }
    lemma_base_nonneg(d, 10);
}
pub proof fn lemma_num(s: Seq<XChar>, p: int)
    requires sok(s)
    ensures 0 <= p < s.len() && udig(s[p]) ==> ({ let t = flat(s.subrange(p, s.len() as int));
        !sto_neg(t) && sto_val(t, 10) == sto_abs(t, 10) && sto_abs(t, 10) >= 0 })
{
    if 0 <= p < s.len() && udig(s[p]) {
        let t = s.subrange(p, s.len() as int);
        assert forall|k: int| 0 <= k < t.len() implies char_ok((#[trigger] t[k]).data_) by { assert(t[k] == s[p + k]); }
        lemma_num_text(t);
    }
}
pub proof fn lemma_then(a: Seq<u8>, b: Seq<u8>, o: Out)
    ensures then(a, then(b, o)) == then(a + b, o)
{ assert(a + (b + o.text) =~= (a + b) + o.text); }
pub proof fn lemma_padded_sok(v: Seq<XChar>, fill: XChar, side: int, width: int)
    requires sok(v), char_ok(fill.data_)
    ensures sok(padded(v, fill, side, width))
{ }
pub proof fn lemma_zeros(n: int)
    ensures clean(zeros(n)), n >= 0 ==> zeros(n + 1) =~= zeros(n).push(48)
{ assert(ascii(zeros(n))); lemma_ascii(zeros(n)); }

pub proof fn lemma_padded_flat(v: Seq<XChar>, l: Lay)
    requires sok(v), char_ok(l.fill.data_)
    ensures sok(laid(v, l)), clean(flat(laid(v, l))), flat(u8split(flat(laid(v, l)))) == flat(laid(v, l))
{
    reveal(laid);
    if l.ty == 2 { lemma_fixed_clean(v, l.prec); lemma_text_roundtrip(fixed(v, l.prec)); }
    lemma_flat_clean(laid(v, l));
}
pub proof fn lemma_fixed_clean(v: Seq<XChar>, prec: int)
    requires sok(v)
    ensures clean(fixed(v, prec))
{
    reveal(fixed);
    broadcast use lemma_split1, lemma_ok1;
    let dot = chfind(v, 46, 0);
    lemma_chfind(v, 46, 0);
    lemma_flat_clean(v);
    assert(clean(seq![46u8]));
    if dot < v.len() {
        lemma_run_end(v, dot + 1);
        let e = upto(run_end(v, dot + 1), dot + 1 + (if prec > 0 { prec } else { 0 }));
        lemma_sok_sub(v, 0, dot + 1); lemma_sok_sub(v, dot + 1, e);
        lemma_flat_clean(v.subrange(0, dot + 1)); lemma_flat_clean(v.subrange(dot + 1, e));
        lemma_clean_cat(flat(v.subrange(0, dot + 1)), flat(v.subrange(dot + 1, e)));
        lemma_zeros(prec - (e - dot - 1));
        lemma_clean_cat(flat(v.subrange(0, dot + 1)) + flat(v.subrange(dot + 1, e)), zeros(prec - (e - dot - 1)));
    } else if prec > 0 { lemma_clean_cat(flat(v), seq![46u8]); lemma_zeros(prec); lemma_clean_cat(flat(v) + seq![46u8], zeros(prec)); }
}
pub proof fn lemma_align_ok(s: Seq<XChar>, p: int)
    requires sok(s), 0 <= p
    ensures char_ok(f_align(s, p).fill.data_), 0 <= f_align(s, p).side <= 2, p <= s.len() ==> p <= f_align(s, p).pos <= s.len()
{ broadcast use lemma_lit1; assert(ch1(32).data_[0] == 32); assert(char_valid(seq![32u8])); if mark(s, p + 1) >= 0 { assert(char_ok(s[p].data_)); } }
pub proof fn lemma_one_arg_clean(v: Seq<XChar>, spec: Seq<XChar>, auto: int)
    requires sok(v), sok(spec)
    ensures clean(one_arg(v, spec, auto).text)
{
    lemma_flat_clean(v);
    assert(clean(Seq::<u8>::empty()));
    if spec.len() > 0 { reveal(f_layout); lemma_align_ok(spec, 1); lemma_padded_flat(v, f_layout(spec)); }
}
pub proof fn lemma_place_clean(spec: Seq<XChar>, args: Seq<XString>, auto: int)
    requires sok(spec), forall|k: int| 0 <= k < args.len() ==> sok((#[trigger] args[k]).data_), 0 <= auto
    ensures place(spec, args, auto).ok ==> clean(place(spec, args, auto).text)
{
    if spec.len() > 0 && udig(spec[0]) {
        lemma_run_end(spec, 0);
        let e = run_end(spec, 0);
        let n = sto_u(flat(spec.subrange(0, e)), 10) as int;
        lemma_sok_sub(spec, e, spec.len() as int);
        if n < args.len() { lemma_one_arg_clean(args[n].data_, spec.subrange(e, spec.len() as int), auto); }
    } else {
        let n = if args.len() > 1 { auto } else { 0 };
        if n < args.len() { lemma_one_arg_clean(args[n].data_, if at1(spec, 0, 58) { spec } else { Seq::empty() }, if args.len() > 1 { auto + 1 } else { auto }); }
    }
}
pub proof fn lemma_step_clean(f: Seq<XChar>, args: Seq<XString>, i: int, auto: int)
    requires sok(f), forall|k: int| 0 <= k < args.len() ==> sok((#[trigger] args[k]).data_), 0 <= i < f.len(), 0 <= auto
    ensures step(f, args, i, auto).ok ==> clean(step(f, args, i, auto).text)
{
    broadcast use lemma_split1, lemma_ok1;
    assert(char_ok(f[i].data_));
    lemma_u8_one(f[i].data_);
    lemma_chfind(f, 125, i);
    let e = chfind(f, 125, i);
    if e < f.len() && i < e { lemma_sok_sub(f, i + 1, e); lemma_place_clean(f.subrange(i + 1, e), args, auto); }
    assert(clean(seq![123u8]) && clean(seq![125u8]));
    assert(clean(upto_nul(f[i].data_)));
}
pub open spec fn sofar(f: Seq<XChar>, args: Seq<XString>, r: Seq<u8>, i: int, auto: int) -> bool {
    clean(r) && 0 <= auto <= i <= f.len() && fmt(f, args, 0, 0) == then(r, fmt(f, args, i, auto))
}
pub proof fn lemma_step(f: Seq<XChar>, args: Seq<XString>, r: Seq<u8>, i: int, auto: int)
    requires sok(f), forall|k: int| 0 <= k < args.len() ==> sok((#[trigger] args[k]).data_), sofar(f, args, r, i, auto), i < f.len()
    ensures ({ let s = step(f, args, i, auto); s.ok ==> sofar(f, args, r + s.text, s.pos, s.auto) }),
        !step(f, args, i, auto).ok ==> !fmt(f, args, 0, 0).ok
{
    lemma_step_clean(f, args, i, auto);
    lemma_chfind(f, 125, i);
    let s = step(f, args, i, auto);
    if s.ok { lemma_clean_cat(r, s.text); lemma_then(r, s.text, fmt(f, args, s.pos, s.auto)); assert(s.pos > i); }
}
pub proof fn lemma_start(f: Seq<XChar>, args: Seq<XString>)
    ensures sofar(f, args, Seq::empty(), 0, 0)
{ assert(Seq::<u8>::empty() + fmt(f, args, 0, 0).text =~= fmt(f, args, 0, 0).text); }

pub proof fn lemma_fixed_none(v: Seq<XChar>, prec: int)
    requires prec <= 0
    ensures fixed(v, prec) == (if chfind(v, 46, 0) < v.len() { flat(v.subrange(0, chfind(v, 46, 0) + 1)) } else { flat(v) })
{
    reveal(fixed);
    let dot = chfind(v, 46, 0);
    lemma_chfind(v, 46, 0);
    if dot < v.len() {
        lemma_run_end(v, dot + 1);
        assert(v.subrange(dot + 1, dot + 1) =~= Seq::<XChar>::empty());
        assert(flat(v.subrange(0, dot + 1)) + flat(Seq::<XChar>::empty()) + zeros(prec) =~= flat(v.subrange(0, dot + 1)));
    }
}
pub proof fn lemma_fixed_dot(v: Seq<XChar>, prec: int, e: int)
    requires prec > 0, chfind(v, 46, 0) < v.len(), e == upto(run_end(v, chfind(v, 46, 0) + 1), chfind(v, 46, 0) + 1 + prec)
    ensures fixed(v, prec) == flat(v.subrange(0, chfind(v, 46, 0) + 1)) + flat(v.subrange(chfind(v, 46, 0) + 1, e)) + zeros(prec - (e - chfind(v, 46, 0) - 1))
{ reveal(fixed); }
pub proof fn lemma_fixed_nodot(v: Seq<XChar>, prec: int)
    requires prec > 0, chfind(v, 46, 0) == v.len()
    ensures fixed(v, prec) == flat(v) + seq![46u8] + zeros(prec)
{ reveal(fixed); }

// arguments that are not text
pub open spec fn int_arg(n: int) -> XString { XString { data_: chars1(int_dec(n)) } }
pub open spec fn bool_text(b: bool) -> Seq<u8> { if b { seq![116u8, 114, 117, 101] } else { seq![102u8, 97, 108, 115, 101] } }
pub open spec fn bool_arg(b: bool) -> XString { XString { data_: chars1(bool_text(b)) } }
pub proof fn lemma_int_chars(n: int)
    ensures ascii(int_dec(n)), no_nul(int_dec(n)), u8ok(int_dec(n)), u8split(int_dec(n)) == chars1(int_dec(n)), sok(chars1(int_dec(n))), upto_nul(int_dec(n)) == int_dec(n)
{
    let m = (if n < 0 { -n } else { n }) as nat;
    lemma_nat_dec(m);
    assert forall|i: int| 0 <= i < int_dec(n).len() implies #[trigger] int_dec(n)[i] < 0x80 && int_dec(n)[i] != 0 by {
        if n < 0 { if i > 0 { assert(int_dec(n)[i] == nat_dec(m)[i - 1]); } }
    }
    lemma_ascii(int_dec(n)); lemma_nulpos_clean(int_dec(n));
}
pub proof fn lemma_bool_chars()
    ensures forall|b: bool| #![trigger bool_text(b)] u8ok(bool_text(b)) && u8split(bool_text(b)) == chars1(bool_text(b)) && sok(chars1(bool_text(b))) && cstr_bytes(lit(bool_text(b))) == bool_text(b) && cstr_ok(lit(bool_text(b)))
{
    assert forall|b: bool| #![trigger bool_text(b)] u8ok(bool_text(b)) && u8split(bool_text(b)) == chars1(bool_text(b)) && sok(chars1(bool_text(b))) && cstr_bytes(lit(bool_text(b))) == bool_text(b) && cstr_ok(lit(bool_text(b))) by {
        let t = bool_text(b);
        lemma_ascii(t); lemma_nulpos_clean(t); assert(cstr_bytes(lit(t)) =~= t);
    }
}
