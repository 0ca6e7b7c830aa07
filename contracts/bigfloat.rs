// ---- BigFloat: unscaled integer and number of fraction digits; the value is fu / 10^fs
pub open spec fn fu(x: XBigFloat) -> int { bv(x.unscaled_) }
pub open spec fn fs(x: XBigFloat) -> int { x.scale_ as int }
pub open spec fn imax(a: int, b: int) -> int { if a > b { a } else { b } }
pub open spec fn fwf(x: XBigFloat) -> bool { bwf(x.unscaled_) && x.scale_ < 0x200_0000_0000_0000 }
// order of a/10^s and b/10^t
pub open spec fn feq(a: XBigFloat, b: XBigFloat) -> bool { fu(a) * p10(fs(b)) == fu(b) * p10(fs(a)) }
pub open spec fn flt(a: XBigFloat, b: XBigFloat) -> bool { fu(a) * p10(fs(b)) < fu(b) * p10(fs(a)) }
// r/10^rs == (a/10^s) op (b/10^t), over the common denominator
pub open spec fn fsum(a: XBigFloat, b: XBigFloat, sg: int, r: XBigFloat) -> bool {
    fu(r) * (p10(fs(a)) * p10(fs(b))) == (fu(a) * p10(fs(b)) + sg * (fu(b) * p10(fs(a)))) * p10(fs(r))
}
// ---- decimal text: [sign] digits [. digits], either side of the point possibly empty
pub open spec fn dotp(s: Seq<XChar>, i: int) -> int
    decreases s.len() - i
{ if i >= s.len() { s.len() as int } else if s[i] == ch1(46) { i } else { dotp(s, i + 1) } }
pub open spec fn or0(s: Seq<XChar>) -> Seq<XChar> { if s.len() == 0 { seq![ch1(48)] } else { s } }
pub open spec fn fnum(s: Seq<XChar>) -> Seq<XChar> {
    let p = dotp(s, 0);
    if p == s.len() { s } else { or0(s.take(p)) + or0(s.skip(p + 1)) }
}
pub open spec fn fscale(s: Seq<XChar>) -> int {
    let p = dotp(s, 0);
    if p == s.len() { 0 } else { or0(s.skip(p + 1)).len() as int }
}
pub open spec fn decimal(s: Seq<XChar>) -> bool { s.len() > 0 && numeral(fnum(s)) }
pub open spec fn fval(s: Seq<XChar>) -> int { num_val(fnum(s)) }
pub proof fn lemma_dotp(s: Seq<XChar>, i: int, r: int)
    requires 0 <= i <= r <= s.len(), forall|k: int| i <= k < r ==> #[trigger] s[k] != ch1(46), r < s.len() ==> s[r] == ch1(46)
    ensures dotp(s, i) == r
    decreases r - i
{ if i < r { lemma_dotp(s, i + 1, r); } }
pub proof fn lemma_dot_find(s: Seq<XChar>, p: Seq<XChar>)
    requires p =~= seq![ch1(46)]
    ensures
        (forall|k: int| 0 <= k ==> !#[trigger] occurs_at(s, p, k)) ==> dotp(s, 0) == s.len(),
        forall|r: int| #![trigger occurs_at(s, p, r)] 0 <= r && occurs_at(s, p, r) && (forall|k: int| 0 <= k < r ==> !#[trigger] occurs_at(s, p, k)) ==> r < s.len() && dotp(s, 0) == r,
{
    assert forall|k: int| 0 <= k < s.len() implies (#[trigger] s[k] == ch1(46) <==> occurs_at(s, p, k)) by {
        assert(s.subrange(k, k + 1) =~= seq![s[k]]);
        if s[k] == ch1(46) { assert(s.subrange(k, k + 1) =~= p); }
        if occurs_at(s, p, k) { assert(s.subrange(k, k + 1)[0] == p[0]); }
    }
    if forall|k: int| 0 <= k ==> !#[trigger] occurs_at(s, p, k) {
        assert forall|k: int| 0 <= k < s.len() implies #[trigger] s[k] != ch1(46) by { assert(!occurs_at(s, p, k)); }
        lemma_dotp(s, 0, s.len() as int);
    }
    assert forall|r: int| #![trigger occurs_at(s, p, r)] 0 <= r && occurs_at(s, p, r) && (forall|k: int| 0 <= k < r ==> !#[trigger] occurs_at(s, p, k)) implies r < s.len() && dotp(s, 0) == r by {
        assert forall|k: int| 0 <= k < r implies #[trigger] s[k] != ch1(46) by { assert(!occurs_at(s, p, k)); }
        lemma_dotp(s, 0, r);
    }
}
pub proof fn lemma_ten()
    ensures cstr_bytes(lit(seq![49u8, 48u8])) =~= int_dec(10), p10(0) == 1
{ lemma_int_text(10); lemma_int_text(1); lemma_nat_dec(10); lemma_nat_dec(1); assert(nat_dec(10) == nat_dec(1).push(48u8)); assert(int_dec(10) =~= seq![49u8, 48u8]); }
pub proof fn lemma_p10_split(a: int, b: int) requires 0 <= a <= b ensures p10(b) == p10(a) * p10(b - a), p10(a) >= 1, p10(b - a) >= 1, p10(b) >= 1
{ lemma_p10_add(a, b - a); lemma_p10(a); lemma_p10(b); lemma_p10(b - a); }
// comparing at a common scale compares the values
pub proof fn lemma_common(a: XBigFloat, b: XBigFloat)
    ensures ({ let m = imax(fs(a), fs(b)); let x = fu(a) * p10(m - fs(a)); let y = fu(b) * p10(m - fs(b));
        (x == y <==> feq(a, b)) && (x < y <==> flt(a, b))
        && (x + y) * (p10(fs(a)) * p10(fs(b))) == (fu(a) * p10(fs(b)) + 1 * (fu(b) * p10(fs(a)))) * p10(m)
        && (x - y) * (p10(fs(a)) * p10(fs(b))) == (fu(a) * p10(fs(b)) + -1 * (fu(b) * p10(fs(a)))) * p10(m) })
{
    let s = fs(a); let t = fs(b); let m = imax(s, t);
    lemma_p10_split(s, m); lemma_p10_split(t, m);
    lemma_common_arith(fu(a), fu(b), p10(s), p10(t), p10(m - s), p10(m - t), p10(m));
}
pub proof fn lemma_common_arith(u: int, v: int, s: int, t: int, ds: int, dt: int, m: int)
    requires s >= 1, t >= 1, ds >= 1, dt >= 1, m == s * ds, m == t * dt
    ensures u * ds == v * dt <==> u * t == v * s, u * ds < v * dt <==> u * t < v * s,
        (u * ds + v * dt) * (s * t) == (u * t + 1 * (v * s)) * m,
        (u * ds - v * dt) * (s * t) == (u * t + -1 * (v * s)) * m,
{
    let x = u * ds; let y = v * dt; let w = s * t;
    assert(x * w == u * t * m) by (nonlinear_arith) requires x == u * ds, w == s * t, m == s * ds;
    assert(y * w == v * s * m) by (nonlinear_arith) requires y == v * dt, w == s * t, m == t * dt;
    assert(w >= 1) by (nonlinear_arith) requires w == s * t, s >= 1, t >= 1;
    assert(m >= 1) by (nonlinear_arith) requires m == s * ds, s >= 1, ds >= 1;
    let p = u * t; let q = v * s;
    assert(x * w == p * m && y * w == q * m);
    assert((x == y <==> p == q) && (x < y <==> p < q)) by (nonlinear_arith) requires x * w == p * m, y * w == q * m, w >= 1, m >= 1;
    assert((x + y) * w == (p + q) * m && (x - y) * w == (p - q) * m) by (nonlinear_arith) requires x * w == p * m, y * w == q * m;
}
// ---- the text of a value
pub open spec fn nz(n: int) -> Seq<u8> { Seq::new(if n > 0 { n as nat } else { 0 }, |i: int| 48u8) }
pub open spec fn fdigs(u: int, s: int) -> Seq<u8> { let d = nat_dec(iabs(u) as nat); nz(s + 1 - d.len()) + d }
pub open spec fn ftext(u: int, s: int) -> Seq<u8> {
    let d = fdigs(u, s); let p = d.len() - s;
    (if u < 0 { seq![45u8] } else { Seq::empty() }) + d.take(p) + (if d.skip(p) =~= nz(s) { Seq::empty() } else { seq![46u8] + d.skip(p) })
}
pub proof fn lemma_fdigs(u: int, s: int)
    requires s >= 0
    ensures fdigs(u, s).len() > s, all_dig(fdigs(u, s)), dec_val(fdigs(u, s)) == iabs(u), no_nul(ftext(u, s)), ascii(ftext(u, s))
{
    let d = nat_dec(iabs(u) as nat); lemma_nat_dec(iabs(u) as nat);
    let z = nz(s + 1 - d.len()); let f = fdigs(u, s);
    assert forall|i: int| 0 <= i < f.len() implies is_dig(#[trigger] f[i]) by { if i >= z.len() { assert(is_dig(d[i - z.len()])); } }
    lemma_dec_cat(z, d); lemma_dec_zeros(z.len() as int);
    assert(z =~= nz(z.len() as int));
    assert(0 * p10(d.len() as int) == 0);
    let t = ftext(u, s);
    let p = f.len() - s;
    assert forall|i: int| 0 <= i < t.len() implies 0 < #[trigger] t[i] < 0x80 by {
        let h: int = if u < 0 { 1 } else { 0 };
        if h <= i < h + p { assert(t[i] == f[i - h]); assert(is_dig(f[i - h])); }
        if i > h + p { assert(t[i] == f[i - h - 1]); assert(is_dig(f[i - h - 1])); }
    }
}
pub proof fn lemma_dec_cat(a: Seq<u8>, b: Seq<u8>)
    requires all_dig(a), all_dig(b)
    ensures dec_val(a + b) == dec_val(a) * p10(b.len() as int) + dec_val(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else {
        let c = b.drop_last();
        assert((a + b).drop_last() =~= a + c); assert((a + b).last() == b.last());
        assert(is_dig(b[b.len() - 1]));
        assert(all_dig(c)) by { assert forall|i: int| 0 <= i < c.len() implies is_dig(#[trigger] c[i]) by { assert(is_dig(b[i])); } }
        lemma_dec_cat(a, c);
        let x = dec_val(a) as int; let q = p10(c.len() as int);
        lemma_p10(b.len() as int);
        assert((x * q) * 10 == x * (10 * q)) by (nonlinear_arith);
    }
}
pub proof fn lemma_dec_zeros(n: int)
    ensures dec_val(nz(n)) == 0, all_dig(nz(n))
    decreases n
{ if n > 0 { assert(nz(n).drop_last() =~= nz(n - 1)); lemma_dec_zeros(n - 1); } }
// the printed text is decimal text for exactly the value
pub open spec fn frac_zero(u: int, s: int) -> bool { let f = fdigs(u, s); f.skip(f.len() - s) =~= nz(s) }
#[verifier::spinoff_prover] #[verifier::rlimit(60)]
proof fn lemma_float_whole(u: int, s: int)
    requires s >= 0, frac_zero(u, s)
    ensures ({ let t = chars1(ftext(u, s)); decimal(t) && fval(t) * p10(s) == u * p10(fscale(t)) && sok(t) })
{
    lemma_fdigs(u, s);
    let f = fdigs(u, s); let p = f.len() - s; let ip = f.take(p); let fr = f.skip(p); let t = ftext(u, s); let c = chars1(t);
    let h: int = if u < 0 { 1 } else { 0 };
    let zf = fr =~= nz(s);
    assert(all_dig(ip)) by { assert forall|i: int| 0 <= i < ip.len() implies is_dig(#[trigger] ip[i]) by { assert(is_dig(f[i])); } }
    assert(all_dig(fr)) by { assert forall|i: int| 0 <= i < fr.len() implies is_dig(#[trigger] fr[i]) by { assert(is_dig(f[i + p])); } }
    assert(f =~= ip + fr); lemma_dec_cat(ip, fr);
    let sg: Seq<u8> = if u < 0 { seq![45u8] } else { Seq::empty() };
    let whole = if zf { sg + ip } else { sg + f };
    assert forall|i: int| 0 <= i < c.len() implies char_ok((#[trigger] c[i]).data_) by { lemma_ch1(t[i]); }
    assert(t =~= sg + ip);
    assert forall|k: int| 0 <= k < c.len() implies #[trigger] c[k] != ch1(46) by { assert(c[k].data_[0] == t[k]); assert(ch1(46).data_[0] == 46); if k >= h { assert(is_dig(ip[k - h])); } }
    lemma_dotp(c, 0, c.len() as int);
    assert(fnum(c) =~= chars1(whole));
    lemma_dec_zeros(s); lemma_whole(sg, ip, u < 0);
    assert(p10(0) == 1);
    let w = dec_val(ip) as int; let q = p10(s);
    assert((-w) * q == -(w * q)) by (nonlinear_arith);
    assert(fval(c) * q == u);
    assert(u * 1 == u);
}
#[verifier::spinoff_prover] #[verifier::rlimit(60)]
proof fn lemma_float_frac(u: int, s: int)
    requires s >= 0, !frac_zero(u, s)
    ensures ({ let t = chars1(ftext(u, s)); decimal(t) && fval(t) * p10(s) == u * p10(fscale(t)) && sok(t) })
{
    lemma_fdigs(u, s);
    let f = fdigs(u, s); let p = f.len() - s; let ip = f.take(p); let fr = f.skip(p); let t = ftext(u, s); let c = chars1(t);
    let h: int = if u < 0 { 1 } else { 0 };
    let zf = fr =~= nz(s);
    assert(all_dig(ip)) by { assert forall|i: int| 0 <= i < ip.len() implies is_dig(#[trigger] ip[i]) by { assert(is_dig(f[i])); } }
    assert(all_dig(fr)) by { assert forall|i: int| 0 <= i < fr.len() implies is_dig(#[trigger] fr[i]) by { assert(is_dig(f[i + p])); } }
    assert(f =~= ip + fr); lemma_dec_cat(ip, fr);
    let sg: Seq<u8> = if u < 0 { seq![45u8] } else { Seq::empty() };
    let whole = if zf { sg + ip } else { sg + f };
    assert forall|i: int| 0 <= i < c.len() implies char_ok((#[trigger] c[i]).data_) by { lemma_ch1(t[i]); }
    assert(s > 0) by { if s == 0 { assert(fr =~= nz(0)); } }
    let d = h + p;
    assert(c[d] == ch1(46));
    assert forall|k: int| 0 <= k < d implies #[trigger] c[k] != ch1(46) by { assert(c[k].data_[0] == t[k]); assert(ch1(46).data_[0] == 46); if k >= h { assert(t[k] == ip[k - h]); assert(is_dig(ip[k - h])); } }
    lemma_dotp(c, 0, d);
    assert(c.take(d) =~= chars1(sg + ip)); assert(c.skip(d + 1) =~= chars1(fr));
    assert(fnum(c) =~= chars1(whole));
    lemma_whole(sg, f, u < 0);
}
pub proof fn theorem_float_text(u: int, s: int)
    requires s >= 0
    ensures ({ let t = chars1(ftext(u, s)); decimal(t) && fval(t) * p10(s) == u * p10(fscale(t)) && sok(t) })
{ if frac_zero(u, s) { lemma_float_whole(u, s); } else { lemma_float_frac(u, s); } }
proof fn lemma_whole(sg: Seq<u8>, d: Seq<u8>, neg: bool)
    requires all_dig(d), d.len() > 0, sg =~= (if neg { seq![45u8] } else { Seq::<u8>::empty() })
    ensures numeral(chars1(sg + d)), num_val(chars1(sg + d)) == (if neg { -(dec_val(d) as int) } else { dec_val(d) as int })
{
    let c = chars1(sg + d);
    lemma_pv_dec(d);
    assert(ch1(45).data_[0] == 45 && ch1(43).data_[0] == 43);
    assert(is_dig(d[0]));
    assert(c[0].data_[0] == (sg + d)[0]);
    if neg {
        assert(c.skip(1) =~= chars1(d)); assert(c[0] == ch1(45));
        assert forall|i: int| 1 <= i < c.len() implies is_cdig(#[trigger] c[i]) by { assert(c[i] == chars1(d)[i - 1]); }
    } else {
        assert(c[0] != ch1(45) && c[0] != ch1(43)); assert(c.skip(0) =~= chars1(d));
        assert forall|i: int| 0 <= i < c.len() implies is_cdig(#[trigger] c[i]) by { assert(c[i] == chars1(d)[i]); }
    }
}
proof fn lemma_point()
    ensures cstr_bytes(lit(seq![46u8])) =~= seq![46u8], u8ok(seq![46u8]), u8split(seq![46u8]) =~= seq![ch1(46)],
        u8split(int_dec(0)) =~= seq![ch1(48)]
{
    let s = seq![46u8]; lemma_ascii(s); lemma_nulpos_clean(s);
    assert(chars1(s) =~= seq![ch1(46)]);
    lemma_int_text(0); lemma_nat_dec(0);
    assert(chars1(int_dec(0)) =~= seq![ch1(48)]);
}
// an integer is decimal text for itself
proof fn lemma_float_int(n: int)
    requires n >= 0
    ensures decimal(chars1(int_dec(n))), fval(chars1(int_dec(n))) == n, fscale(chars1(int_dec(n))) == 0
{
    lemma_int_text(n); lemma_nat_dec(n as nat);
    let c = chars1(int_dec(n));
    assert forall|k: int| 0 <= k < c.len() implies #[trigger] c[k] != ch1(46) by { assert(c[k].data_[0] == int_dec(n)[k]); assert(ch1(46).data_[0] == 46); assert(is_dig(nat_dec(n as nat)[k])); }
    lemma_dotp(c, 0, c.len() as int);
}
proof fn lemma_zero_frac(u: int, s: int, c: Seq<XChar>, z: Seq<XChar>)
    requires s >= 0, c =~= chars1(fdigs(u, s).skip(fdigs(u, s).len() - s)), z.len() == s, forall|i: int| 0 <= i < s ==> #[trigger] z[i] == ch1(48)
    ensures c =~= z <==> fdigs(u, s).skip(fdigs(u, s).len() - s) =~= nz(s)
{
    lemma_fdigs(u, s);
    let f = fdigs(u, s).skip(fdigs(u, s).len() - s);
    if c =~= z { assert forall|i: int| 0 <= i < s implies #[trigger] f[i] == 48u8 by { assert(c[i] == z[i]); assert(ch1(f[i]).data_[0] == ch1(48).data_[0]); } }
}
