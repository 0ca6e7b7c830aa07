// ---- integers as little-endian decimal digits
pub open spec fn p10(n: int) -> int decreases n { if n <= 0 { 1 } else { 10 * p10(n - 1) } }
pub open spec fn digs(s: Seq<i32>) -> bool { forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i] <= 9 }
pub open spec fn norm(s: Seq<i32>) -> bool { s.len() > 0 ==> s.last() != 0 }
// the natural number the digits denote
pub open spec fn nv(s: Seq<i32>) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else { nv(s.drop_last()) + s.last() * p10(s.len() - 1) } }
pub open spec fn zeros(n: int) -> Seq<i32> { Seq::new(n as nat, |i: int| 0i32) }
pub open spec fn bweak(b: XBigInteger) -> bool { digs(b.digits_) && norm(b.digits_) }
// canonical: no leading zeros, no negative zero
pub open spec fn bwf(b: XBigInteger) -> bool { bweak(b) && (b.is_negative_ ==> b.digits_.len() > 0) }
pub open spec fn bv(b: XBigInteger) -> int { if b.is_negative_ { -nv(b.digits_) } else { nv(b.digits_) } }
pub open spec fn iabs(a: int) -> int { if a < 0 { -a } else { a } }
pub open spec fn ipow(a: int, n: int) -> int decreases n { if n <= 0 { 1 } else { a * ipow(a, n - 1) } }

pub proof fn lemma_p10(n: int) ensures p10(n) >= 1, n >= 1 ==> p10(n) == 10 * p10(n - 1) decreases n
{ if n > 0 { lemma_p10(n - 1); } }
pub proof fn lemma_p10_mono(a: int, b: int) requires a <= b ensures p10(a) <= p10(b) decreases b - a
{ if a < b { lemma_p10(b); lemma_p10_mono(a, b - 1); if b <= 0 { assert(p10(a) == 1); } } }
pub proof fn lemma_nv_step(s: Seq<i32>, i: int)
    requires 0 <= i < s.len()
    ensures nv(s.take(i + 1)) == nv(s.take(i)) + s[i] * p10(i)
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); }
pub proof fn lemma_nv_full(s: Seq<i32>) ensures s.take(s.len() as int) =~= s, s.skip(0) =~= s, nv(s.take(0)) == 0, nv(s.skip(s.len() as int)) == 0 {}
pub proof fn lemma_nv_bound(s: Seq<i32>)
    requires digs(s)
    ensures 0 <= nv(s) < p10(s.len() as int), s.len() > 0 && s.last() != 0 ==> nv(s) >= p10(s.len() - 1)
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last(); let n = s.len() - 1; let l = s.last() as int;
        assert(digs(t)) by { assert forall|i: int| 0 <= i < t.len() implies 0 <= #[trigger] t[i] <= 9 by { assert(t[i] == s[i]); } }
        lemma_nv_bound(t); lemma_p10(n); lemma_p10(n + 1);
        assert(0 <= s[n] <= 9);
        assert(0 <= l * p10(n) <= 9 * p10(n) && (l >= 1 ==> l * p10(n) >= p10(n))) by (nonlinear_arith) requires 0 <= l <= 9, p10(n) >= 1;
    }
}
pub proof fn lemma_nv_zero(s: Seq<i32>)
    requires digs(s), norm(s)
    ensures nv(s) == 0 <==> s.len() == 0
{ lemma_nv_bound(s); if s.len() > 0 { lemma_p10(s.len() - 1); } }
// a digit in front is the new lowest digit
pub proof fn lemma_nv_front(d: i32, s: Seq<i32>)
    ensures nv(seq![d] + s) == d + 10 * nv(s)
    decreases s.len()
{
    let t = seq![d] + s;
    if s.len() == 0 { assert(t.drop_last() =~= Seq::<i32>::empty()); assert(nv(t.drop_last()) == 0); assert(p10(0) == 1); assert(t.last() == d); }
    else {
        assert(t.drop_last() =~= seq![d] + s.drop_last());
        lemma_nv_front(d, s.drop_last());
        let n = s.len() - 1; let l = s.last() as int;
        assert(t.last() == s.last()); lemma_p10(n + 1);
        assert(l * (10 * p10(n)) == 10 * (l * p10(n))) by (nonlinear_arith);
    }
}
pub proof fn lemma_nv_skip(s: Seq<i32>, i: int)
    requires 0 <= i < s.len()
    ensures nv(s.skip(i)) == s[i] + 10 * nv(s.skip(i + 1))
{ assert(s.skip(i) =~= seq![s[i]] + s.skip(i + 1)); lemma_nv_front(s[i], s.skip(i + 1)); }
pub proof fn lemma_nv_zeros(n: int) requires n >= 0 ensures nv(zeros(n)) == 0, digs(zeros(n)) decreases n
{ if n > 0 { assert(zeros(n).drop_last() =~= zeros(n - 1)); lemma_nv_zeros(n - 1); assert(0 * p10(n - 1) == 0); } }
// the highest differing digit decides
pub proof fn lemma_nv_lt(s: Seq<i32>, t: Seq<i32>, i: int)
    requires digs(s), digs(t), s.len() == t.len(), 0 < i <= s.len(), forall|k: int| i <= k < s.len() ==> #[trigger] s[k] == t[k], s[i - 1] < t[i - 1]
    ensures nv(s) < nv(t)
    decreases s.len()
{
    let n = s.len() - 1; let a = s.drop_last(); let b = t.drop_last();
    assert(digs(a)) by { assert forall|k: int| 0 <= k < n implies 0 <= #[trigger] a[k] <= 9 by { assert(a[k] == s[k]); } }
    assert(digs(b)) by { assert forall|k: int| 0 <= k < n implies 0 <= #[trigger] b[k] <= 9 by { assert(b[k] == t[k]); } }
    if i == s.len() {
        lemma_nv_bound(a); lemma_nv_bound(b); lemma_p10(n);
        let x = s.last() as int; let y = t.last() as int;
        assert(x * p10(n) + p10(n) <= y * p10(n)) by (nonlinear_arith) requires x + 1 <= y, p10(n) >= 1;
    } else {
        assert(s[n] == t[n]);
        assert forall|k: int| i <= k < n implies #[trigger] a[k] == b[k] by { assert(s[k] == t[k]); }
        lemma_nv_lt(a, b, i);
    }
}
pub proof fn lemma_nv_len(s: Seq<i32>, t: Seq<i32>)
    requires digs(s), digs(t), norm(t), s.len() < t.len()
    ensures nv(s) < nv(t)
{ lemma_nv_bound(s); lemma_nv_bound(t); lemma_p10_mono(s.len() as int, t.len() - 1); }
pub proof fn lemma_nv_top(s: Seq<i32>, t: Seq<i32>, i: int)
    requires digs(s), digs(t), s.len() == t.len(), 0 <= i <= s.len(), forall|k: int| i <= k < s.len() ==> #[trigger] s[k] == t[k], i > 0 ==> s[i - 1] != t[i - 1]
    ensures i > 0 ==> (nv(s) < nv(t) <==> s[i - 1] < t[i - 1]) && nv(s) != nv(t), i == 0 ==> s =~= t
{
    if i > 0 {
        if s[i - 1] < t[i - 1] { lemma_nv_lt(s, t, i); } else {
            assert forall|k: int| i <= k < s.len() implies #[trigger] t[k] == s[k] by { assert(s[k] == t[k]); }
            lemma_nv_lt(t, s, i); }
    }
}
pub proof fn lemma_nv_inj(s: Seq<i32>, t: Seq<i32>)
    requires digs(s), digs(t), norm(s), norm(t)
    ensures nv(s) == nv(t) <==> s =~= t
    decreases s.len()
{
    if s.len() < t.len() { lemma_nv_len(s, t); }
    else if t.len() < s.len() { lemma_nv_len(t, s); }
    else if !(s =~= t) {
        lemma_nv_diff(s, t, s.len() as int);
    }
}
pub proof fn lemma_nv_diff(s: Seq<i32>, t: Seq<i32>, i: int)
    requires digs(s), digs(t), s.len() == t.len(), 0 <= i <= s.len(), forall|k: int| i <= k < s.len() ==> #[trigger] s[k] == t[k], !(s =~= t)
    ensures nv(s) != nv(t)
    decreases i
{ if i > 0 && s[i - 1] == t[i - 1] { lemma_nv_diff(s, t, i - 1); } else { lemma_nv_top(s, t, i); } }
pub proof fn lemma_beq(a: XBigInteger, b: XBigInteger)
    requires bwf(a), bwf(b)
    ensures bv(a) == bv(b) <==> (a.digits_ =~= b.digits_ && a.is_negative_ == b.is_negative_),
        bv(a) == 0 <==> a.digits_.len() == 0, a.is_negative_ ==> bv(a) < 0, bv(a) < 0 ==> a.is_negative_
{ lemma_nv_inj(a.digits_, b.digits_); lemma_nv_zero(a.digits_); lemma_nv_zero(b.digits_); lemma_nv_bound(a.digits_); lemma_nv_bound(b.digits_); }
// ---- decimal text
pub open spec fn cdig(c: XChar) -> int { utf8_cp(c.data_) - 48 }
pub open spec fn is_cdig(c: XChar) -> bool { 0 <= cdig(c) <= 9 }
pub open spec fn pv(s: Seq<XChar>) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else { pv(s.drop_last()) * 10 + cdig(s.last()) } }
pub open spec fn sgn_len(s: Seq<XChar>) -> int { if s.len() > 0 && (s[0] == ch1(45) || s[0] == ch1(43)) { 1 } else { 0 } }
pub open spec fn numeral(s: Seq<XChar>) -> bool {
    s.len() > sgn_len(s) && (forall|i: int| sgn_len(s) <= i < s.len() ==> is_cdig(#[trigger] s[i]))
}
pub open spec fn num_val(s: Seq<XChar>) -> int {
    let n = pv(s.skip(sgn_len(s)));
    if s.len() > 0 && s[0] == ch1(45) { -n } else { n }
}
pub proof fn lemma_pv_rev(s: Seq<XChar>, d: Seq<i32>)
    requires d.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> is_cdig(#[trigger] s[i]) && d[i] == cdig(s[i])
    ensures nv(d.reverse()) == pv(s), digs(d.reverse())
    decreases s.len()
{
    let r = d.reverse();
    assert forall|i: int| 0 <= i < r.len() implies 0 <= #[trigger] r[i] <= 9 by { assert(is_cdig(s[d.len() - 1 - i])); }
    if s.len() > 0 {
        let s1 = s.drop_last(); let d1 = d.drop_last();
        assert forall|i: int| 0 <= i < s1.len() implies is_cdig(#[trigger] s1[i]) && d1[i] == cdig(s1[i]) by { assert(is_cdig(s[i]) && d[i] == cdig(s[i])); }
        lemma_pv_rev(s1, d1);
        assert(r =~= seq![d.last()] + d1.reverse());
        lemma_nv_front(d.last(), d1.reverse());
        assert(is_cdig(s[s.len() - 1]) && d[s.len() - 1] == cdig(s[s.len() - 1]));
    }
}
pub proof fn lemma_ch1(b: u8) requires b < 0x80 ensures utf8_cp(ch1(b).data_) == b, char_valid(ch1(b).data_) { assert(seq![b][0] == b); }
pub proof fn lemma_pv_dec(b: Seq<u8>)
    requires all_dig(b)
    ensures pv(chars1(b)) == dec_val(b), forall|i: int| 0 <= i < b.len() ==> is_cdig(#[trigger] chars1(b)[i])
    decreases b.len()
{
    assert forall|i: int| 0 <= i < b.len() implies is_cdig(#[trigger] chars1(b)[i]) by { assert(is_dig(b[i])); lemma_ch1(b[i]); }
    if b.len() > 0 {
        let c = b.drop_last();
        assert(all_dig(c)) by { assert forall|i: int| 0 <= i < c.len() implies is_dig(#[trigger] c[i]) by { assert(is_dig(b[i])); } }
        lemma_pv_dec(c);
        assert(chars1(b).drop_last() =~= chars1(c));
        assert(is_dig(b[b.len() - 1])); lemma_ch1(b.last());
    }
}
// the text of an integer denotes it
pub proof fn lemma_int_text(n: int)
    ensures ascii(int_dec(n)), no_nul(int_dec(n)), numeral(chars1(int_dec(n))), num_val(chars1(int_dec(n))) == n,
        u8ok(int_dec(n)), u8split(int_dec(n)) == chars1(int_dec(n)), sok(chars1(int_dec(n))), upto_nul(int_dec(n)) == int_dec(n)
{
    let a = iabs(n) as nat; let t = nat_dec(a); let s = int_dec(n);
    lemma_nat_dec(a); lemma_pv_dec(t);
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] < 0x80 && s[i] != 0 by { if n < 0 { if i > 0 { assert(s[i] == t[i - 1]); assert(is_dig(t[i - 1])); } } else { assert(is_dig(t[i])); } }
    lemma_ascii(s); lemma_nulpos_clean(s);
    let c = chars1(s);
    assert(ch1(45).data_[0] == 45 && ch1(43).data_[0] == 43);
    if n < 0 {
        assert(c.skip(1) =~= chars1(t));
        assert(c[0] == ch1(45));
        assert forall|i: int| 1 <= i < c.len() implies is_cdig(#[trigger] c[i]) by { assert(c[i] == chars1(t)[i - 1]); }
    } else {
        assert(is_dig(t[0])); assert(c[0].data_[0] == t[0]);
        assert(c[0] != ch1(45) && c[0] != ch1(43));
        assert(c.skip(0) =~= chars1(t));
    }
}
// the digits of a canonical number are its decimal text backwards
pub proof fn lemma_dec_digs(s: Seq<i32>)
    requires digs(s), norm(s), s.len() > 0
    ensures nat_dec(nv(s) as nat) =~= Seq::new(s.len(), |i: int| (48 + s[s.len() - 1 - i]) as u8)
    decreases s.len()
{
    lemma_nv_bound(s);
    let t = s.skip(1);
    assert(s =~= seq![s[0]] + t); lemma_nv_front(s[0], t);
    assert(0 <= s[0] <= 9);
    if s.len() == 1 { assert(t.len() == 0); assert(nv(t) == 0); assert(s.last() == s[0]); }
    else {
        assert forall|i: int| 0 <= i < t.len() implies 0 <= #[trigger] t[i] <= 9 by { assert(t[i] == s[i + 1]); }
        assert(t.last() == s.last());
        lemma_nv_bound(t); lemma_nv_zero(t); lemma_dec_digs(t);
        let n = nv(s); let q = nv(t);
        assert(n / 10 == q && n % 10 == s[0] && n >= 10) by (nonlinear_arith) requires n == s[0] + 10 * q, 0 <= s[0] <= 9, q >= 1;
    }
}
pub proof fn lemma_ipow_add(a: int, m: int, n: int)
    requires m >= 0, n >= 0
    ensures ipow(a, m + n) == ipow(a, m) * ipow(a, n)
    decreases m
{
    if m > 0 {
        lemma_ipow_add(a, m - 1, n);
        let x = ipow(a, m - 1); let y = ipow(a, n);
        assert(a * (x * y) == (a * x) * y) by (nonlinear_arith);
    } else { assert(1 * ipow(a, n) == ipow(a, n)); }
}
pub proof fn lemma_ipow_sq(a: int, n: int)
    requires n >= 0
    ensures ipow(a * a, n) == ipow(a, 2 * n)
    decreases n
{
    if n > 0 {
        lemma_ipow_sq(a, n - 1); let z = ipow(a, 2 * n - 2);
        assert(ipow(a, 2 * n) == a * ipow(a, 2 * n - 1)); assert(ipow(a, 2 * n - 1) == a * z);
        assert((a * a) * z == a * (a * z)) by (nonlinear_arith);
    }
}
pub open spec fn tk(s: Seq<i32>, i: int) -> Seq<i32> { if i <= s.len() { s.take(i) } else { s } }
pub open spec fn at0(s: Seq<i32>, i: int) -> int { if 0 <= i < s.len() { s[i] as int } else { 0 } }
pub proof fn lemma_tk_step(s: Seq<i32>, i: int)
    requires 0 <= i
    ensures nv(tk(s, i + 1)) == nv(tk(s, i)) + at0(s, i) * p10(i), p10(i + 1) == 10 * p10(i), p10(i) >= 1
{ lemma_p10(i); lemma_p10(i + 1); if i < s.len() { lemma_nv_step(s, i); } else if i == s.len() { assert(s.take(i) =~= s); } assert(0 * p10(i) == 0); }
pub proof fn lemma_tk_all(s: Seq<i32>, i: int)
    requires i >= s.len()
    ensures tk(s, i) =~= s
{}
pub proof fn lemma_tk_digs(s: Seq<i32>, i: int)
    requires digs(s), 0 <= i
    ensures digs(tk(s, i))
{ assert forall|k: int| 0 <= k < tk(s, i).len() implies 0 <= #[trigger] tk(s, i)[k] <= 9 by { assert(tk(s, i)[k] == s[k]); } }
pub proof fn lemma_nv_update(s: Seq<i32>, k: int, d: i32)
    requires 0 <= k < s.len()
    ensures nv(s.update(k, d)) == nv(s) + (d - s[k]) * p10(k)
    decreases s.len()
{
    let t = s.update(k, d); let n = s.len() - 1;
    if k == n {
        assert(t.drop_last() =~= s.drop_last());
        assert(d * p10(k) == s[k] * p10(k) + (d - s[k]) * p10(k)) by (nonlinear_arith);
    } else { assert(t.drop_last() =~= s.drop_last().update(k, d)); lemma_nv_update(s.drop_last(), k, d); }
}
pub proof fn lemma_p10_add(a: int, b: int) requires a >= 0, b >= 0 ensures p10(a + b) == p10(a) * p10(b) decreases a
{
    if a > 0 { lemma_p10_add(a - 1, b); let x = p10(a - 1); let y = p10(b); assert((10 * x) * y == 10 * (x * y)) by (nonlinear_arith); }
    else { assert(1 * p10(b) == p10(b)); }
}
pub proof fn lemma_carry(sum: int, p: int)
    requires sum >= 0
    ensures (sum % 10) * p + (sum / 10) * (10 * p) == sum * p
{ let q = sum / 10; let r = sum % 10; assert(r * p + q * (10 * p) == (10 * q + r) * p) by (nonlinear_arith); }
pub proof fn lemma_add_step(a: int, b: int, c: int, p: int)
    requires a + b + c >= 0
    ensures ((a + b + c) % 10) * p + ((a + b + c) / 10) * (10 * p) == a * p + b * p + c * p
{ lemma_carry(a + b + c, p); assert((a + b + c) * p == a * p + b * p + c * p) by (nonlinear_arith); }
// one digit of a product: the digit already there, the product of two digits, the carry
pub proof fn lemma_mul_step(d: int, a: int, b: int, c: int, p: int, x: int, y: int, m: int)
    requires 0 <= d <= 9, 0 <= a <= 9, 0 <= b <= 9, 0 <= c <= 9, p == x * y
    ensures (((d + a * b + c) % 10) - d) * p + ((d + a * b + c) / 10) * (10 * p) == c * p + a * (b * y) * x, 0 <= a * b <= 81, a * (m + b * y) * x == a * m * x + a * (b * y) * x
{
    assert(0 <= a * b <= 81) by (nonlinear_arith) requires 0 <= a <= 9, 0 <= b <= 9;
    assert(a * (m + b * y) * x == a * m * x + a * (b * y) * x) by (nonlinear_arith);
    let s = d + a * b + c;
    lemma_carry(s, p);
    assert(((s % 10) - d) * p == (s % 10) * p - d * p) by (nonlinear_arith);
    assert((d + a * b + c) * p == d * p + (a * b) * p + c * p) by (nonlinear_arith);
    assert((a * b) * (x * y) == a * (b * y) * x) by (nonlinear_arith);
}
pub proof fn lemma_lits()
    ensures cstr_bytes(lit(seq![48u8])) =~= int_dec(0), cstr_bytes(lit(seq![49u8])) =~= int_dec(1), cstr_bytes(lit(seq![50u8])) =~= int_dec(2)
{
    lemma_int_text(0); lemma_int_text(1); lemma_int_text(2); lemma_nat_dec(0); lemma_nat_dec(1); lemma_nat_dec(2);
    assert(int_dec(0) =~= seq![48u8]); assert(int_dec(1) =~= seq![49u8]); assert(int_dec(2) =~= seq![50u8]);
}
pub proof fn lemma_sub_step(a: int, b: int, c: int, p: int)
    ensures (a - c - b) * p == a * p - b * p - c * p, (a - c - b + 10) * p == a * p - b * p - c * p + 10 * p
{ assert((a - c - b) * p == a * p - b * p - c * p) by (nonlinear_arith); assert((a - c - b + 10) * p == a * p - b * p - c * p + 10 * p) by (nonlinear_arith); }
pub proof fn lemma_mul_sign(a: int, b: int, x: int, y: int)
    requires a == x || a == -x, b == y || b == -y
    ensures a * b == (if (a == x) == (b == y) { x * y } else { -(x * y) }) || x == 0 || y == 0, (x == 0 || y == 0) ==> a * b == 0 && x * y == 0
{
    assert((-x) * y == -(x * y)) by (nonlinear_arith); assert(x * (-y) == -(x * y)) by (nonlinear_arith); assert((-x) * (-y) == x * y) by (nonlinear_arith);
    if x == 0 { assert(0 * b == 0 && 0 * y == 0); } if y == 0 { assert(a * 0 == 0 && x * 0 == 0); }
}
// the partial product with one more digit of the left factor
pub proof fn lemma_mul_head(s: Seq<i32>, t: Seq<i32>, i: int)
    requires digs(s), digs(t), 0 <= i < s.len()
    ensures nv(s.take(i + 1)) * nv(t) == nv(s.take(i)) * nv(t) + s[i] * nv(t) * p10(i), 0 <= nv(s.take(i + 1)) * nv(t) < p10(i + 1 + t.len())
{
    lemma_nv_step(s, i);
    let a = nv(s.take(i)); let d = s[i] as int; let p = p10(i); let m = nv(t);
    assert((a + d * p) * m == a * m + d * m * p) by (nonlinear_arith);
    lemma_tk_digs(s, i + 1); lemma_nv_bound(s.take(i + 1)); lemma_nv_bound(t); lemma_p10_add(i + 1, t.len() as int);
    let x = nv(s.take(i + 1));
    assert(0 <= x * m < p10(i + 1) * p10(t.len() as int)) by (nonlinear_arith) requires 0 <= x < p10(i + 1), 0 <= m < p10(t.len() as int);
}
pub proof fn lemma_mul_bound(total: int, c: int, i: int, m: int, j: int)
    requires c >= 1, i >= 0, m >= 0, j >= m, total < p10(i + 1 + m), c * p10(i + j) <= total
    ensures j == m
{
    if j > m { lemma_p10_mono(i + 1 + m, i + j); lemma_p10(i + j); assert(c * p10(i + j) >= p10(i + j)) by (nonlinear_arith) requires c >= 1, p10(i + j) >= 1; }
}
pub proof fn lemma_div_step(q: int, d: int, c: int, a: int, x: int)
    ensures (x + 10 * q) * d + (10 * c + a - d * x) == a + 10 * (q * d + c)
{ assert((x + 10 * q) * d == x * d + 10 * (q * d)) by (nonlinear_arith); assert(x * d == d * x) by (nonlinear_arith); }
pub proof fn lemma_search_step(d: int, c: int, m: int)
    requires d > 0
    ensures d * (m - 1 + 1) == d * m
{}
pub proof fn lemma_search_end(d: int, c: int, x: int, right: int)
    requires d > 0, 0 <= c < 10 * d, d * x <= c, c < d * (right + 1), x == right || x == 0 && right < 0
    ensures 0 <= x <= 9, 0 <= c - d * x < d, right >= 0
{
    assert(right >= 0) by (nonlinear_arith) requires 0 <= c, c < d * (right + 1), d > 0;
    assert(x <= 9) by (nonlinear_arith) requires d * x <= c, c < 10 * d, d > 0;
    assert(d * (x + 1) == d * x + d) by (nonlinear_arith);
}
// truncated division from the division of the absolute values
pub proof fn lemma_div_end(a: int, b: int, x: int, y: int, q: int, r: int)
    requires a == x || a == -x, b == y || b == -y, x >= 0, y > 0, x == q * y + r, 0 <= r < y
    ensures q >= 0, tdiv(a, b) == (if (a < 0) == (b < 0) { q } else { -q }) || x == 0 && q == 0 && tdiv(a, b) == 0, q == 0 ==> tdiv(a, b) == 0
{
    assert(x / y == q) by (nonlinear_arith) requires x == q * y + r, 0 <= r < y;
    assert(q >= 0) by (nonlinear_arith) requires x == q * y + r, 0 <= r < y, x >= 0;
    if x == 0 { assert(0int / y == 0) by (nonlinear_arith) requires y > 0; }
}
pub proof fn lemma_divmod(a: int, b: int)
    ensures b != 0 ==> a - tdiv(a, b) * b == tmod(a, b) && iabs(tmod(a, b)) < iabs(b) && (tmod(a, b) > 0 ==> a > 0) && (tmod(a, b) < 0 ==> a < 0)
{
    if b != 0 {
        let x = iabs(a); let y = iabs(b);
        assert(x == (x / y) * y + x % y && 0 <= x % y < y) by (nonlinear_arith) requires y > 0;
        let q = x / y;
        assert((-q) * y == -(q * y) && (-q) * (-y) == q * y && q * (-y) == -(q * y)) by (nonlinear_arith);
    }
}
pub proof fn lemma_pow_step(r: int, b: int, e: int)
    requires e > 0
    ensures e % 2 == 1 ==> (r * b) * ipow(b * b, e / 2) == r * ipow(b, e), e % 2 == 0 ==> r * ipow(b * b, e / 2) == r * ipow(b, e)
{
    lemma_ipow_sq(b, e / 2);
    if e % 2 == 1 { let z = ipow(b, e - 1); assert((r * b) * z == r * (b * z)) by (nonlinear_arith); }
}
// the sign of a canonical number is the sign of the integer
pub proof fn lemma_signs()
    ensures forall|a: XBigInteger| #[trigger] bwf(a) ==> (bv(a) == 0 <==> a.digits_.len() == 0) && (a.is_negative_ <==> bv(a) < 0) && nv(a.digits_) >= 0
{
    assert forall|a: XBigInteger| #[trigger] bwf(a) implies (bv(a) == 0 <==> a.digits_.len() == 0) && (a.is_negative_ <==> bv(a) < 0) && nv(a.digits_) >= 0 by {
        lemma_beq(a, a); lemma_nv_bound(a.digits_);
    }
}
pub proof fn lemma_small_squares(n: int)
    ensures n == 0 ==> n * n == 0 && (n + 1) * (n + 1) == 1, n == 1 ==> n * n == 1 && (n + 1) * (n + 1) == 4
{ if n == 0 { assert(n * n == 0 && (n + 1) * (n + 1) == 1) by (nonlinear_arith) requires n == 0; } if n == 1 { assert(n * n == 1 && (n + 1) * (n + 1) == 4) by (nonlinear_arith) requires n == 1; } }
