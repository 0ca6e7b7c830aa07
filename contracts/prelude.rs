// Verification vocabulary of the extracted code: machine integers, C strings, iterators, outcomes, streams.
// Nothing here depends on /repo.

#[verifier::external_body]
pub fn test(b: Ghost<bool>) -> (r: bool) ensures r == b@ { unimplemented!() }

pub uninterp spec fn arbitrary<T>() -> T;
// a value of which nothing is known, a new one at every call
#[verifier::external_body]
pub fn havoc<T>() -> (r: Ghost<T>) { unimplemented!() }
// clocks, durations, random engines and the like: nothing is known of them
#[verifier::external_body] pub struct Opaque { _p: u8 }
// the bounds of a uniform_int_distribution
pub uninterp spec fn dist_lo(d: Opaque) -> int;
pub uninterp spec fn dist_hi(d: Opaque) -> int;
// a number taken from the uniform distribution on lo..=hi by an engine
pub uninterp spec fn drawn(lo: int, hi: int, r: int) -> bool;

#[derive(PartialEq, Eq, Structural)]
pub enum Exc { None, OutOfRange, InvalidArgument, RuntimeError, LogicError, IosFailure, FormatError, LengthError, Other, Foreign }

#[verifier::ext_equal] pub struct CStr { pub buf: Seq<u8>, pub off: int }
#[verifier::ext_equal] pub struct Iter<T> { pub s: Seq<T>, pub i: int }
#[verifier::ext_equal] pub struct Pair<A, B> { pub first: A, pub second: B }
#[verifier::ext_equal] // the objects alive and the reference counters, by address; deleting a null pointer does nothing
pub struct Heap { pub live: Set<int>, pub cnt: Map<int, u64> }
pub open spec fn heap_del_live(h: Heap, p: int) -> Heap { if p == 0 { h } else { Heap { live: h.live.remove(p), ..h } } }
pub open spec fn heap_del_cnt(h: Heap, p: int) -> Heap { if p == 0 { h } else { Heap { cnt: h.cnt.remove(p), ..h } } }
pub open spec fn heap_set_cnt(h: Heap, p: int, v: u64) -> Heap { Heap { cnt: h.cnt.insert(p, v), ..h } }
pub open spec fn heap_eq(a: Heap, b: Heap) -> bool { a.live =~= b.live && a.cnt =~= b.cnt }
// a pointer that owns what it points to
#[verifier::ext_equal] pub enum Own<T> { Null, Dead, Live(T) }
pub struct IO { pub cout: Seq<u8>, pub cerr: Seq<u8>, pub clog: Seq<u8>, pub cin: Seq<u8> }
// files by name; a file stream is open on a name at a position (its read and write positions are one)
pub struct FS { pub files: Map<Seq<u8>, Seq<u8>> }
#[verifier::ext_equal] pub struct FStr { pub open: bool, pub name: Seq<u8>, pub app: bool, pub fail: bool, pub eof: bool, pub unsaved: bool, pub pos: int }
// whether the system lets a name be opened for reading and writing, for emptying, and lets a distant position be reached: fixed but unknown
pub uninterp spec fn can_open(name: Seq<u8>) -> bool;
pub uninterp spec fn can_clear(name: Seq<u8>) -> bool;
pub uninterp spec fn far_seek(p: int) -> bool;
pub open spec fn can_seek(p: int) -> bool { p >= 0 && (p <= 0x200_0000_0000_0000 || far_seek(p)) }
pub open spec fn fstr_new() -> FStr { FStr { open: false, name: Seq::empty(), app: false, fail: false, eof: false, unsaved: false, pos: 0 } }
pub open spec fn fs_has(fs: FS, name: Seq<u8>) -> bool { fs.files.contains_key(name) }
pub open spec fn fs_get(fs: FS, name: Seq<u8>) -> Seq<u8> { if fs_has(fs, name) { fs.files[name] } else { Seq::empty() } }
pub open spec fn fs_set(fs: FS, name: Seq<u8>, t: Seq<u8>) -> FS { FS { files: fs.files.insert(name, t) } }
// appending creates a file, so does truncating; other modes need one
pub open spec fn fs_can(fs: FS, name: Seq<u8>, rd: bool, app: bool, trunc: bool) -> bool {
    if app { can_open(name) } else if trunc || !rd { can_clear(name) } else { fs_has(fs, name) && can_open(name) }
}
// what is written stays in the stream's buffer until it is flushed, closed or moved (unsaved)
pub open spec fn fstr_put(fs: FS, f: FStr, t: Seq<u8>) -> FStr {
    if !f.open || f.fail || f.eof { FStr { fail: f.fail || !f.open, ..f } } else if f.app { FStr { unsaved: true, pos: (fs_get(fs, f.name).len() + t.len()) as int, ..f } } else { FStr { unsaved: true, pos: f.pos + t.len(), ..f } }
}
pub open spec fn fs_put(fs: FS, f: FStr, t: Seq<u8>) -> FS {
    let c = fs_get(fs, f.name);
    if !f.open || f.fail || f.eof { fs } else if f.app || f.pos == c.len() { fs_set(fs, f.name, c + t) }
    else if f.pos > c.len() { fs_set(fs, f.name, c + Seq::new((f.pos - c.len()) as nat, |i: int| 0u8) + t) }
    else { fs_set(fs, f.name, c.take(f.pos) + t + (if f.pos + t.len() < c.len() { c.skip(f.pos + t.len()) } else { Seq::empty() })) }
}
pub open spec fn fstr_seekg(f: FStr, p: int) -> FStr { if f.fail { FStr { eof: false, ..f } } else if f.open && can_seek(p) { FStr { eof: false, unsaved: false, pos: p, ..f } } else { FStr { eof: false, fail: true, ..f } } }
pub open spec fn fstr_seekp(f: FStr, p: int) -> FStr { if f.fail { f } else if f.open && can_seek(p) { FStr { unsaved: false, pos: p, ..f } } else { FStr { fail: true, ..f } } }
// a byte is there to be read
pub open spec fn fstr_has(fs: FS, f: FStr) -> bool { f.open && !f.fail && !f.eof && 0 <= f.pos < fs_get(fs, f.name).len() }
pub open spec fn fstr_get(fs: FS, f: FStr, take: bool) -> FStr {
    if fstr_has(fs, f) { FStr { pos: f.pos + (if take { 1int } else { 0 }), ..f } } else if f.fail || f.eof { FStr { fail: true, ..f } } else { FStr { fail: take, eof: true, ..f } }
}
pub open spec fn fstr_left(fs: FS, f: FStr) -> int { if f.open && f.pos < fs_get(fs, f.name).len() { fs_get(fs, f.name).len() - f.pos } else { 0 } }
pub open spec fn fs_read(fs: FS, f: FStr, b: Seq<u8>, at: int, n: int) -> Seq<u8> {
    let k = if n <= fstr_left(fs, f) { n } else { fstr_left(fs, f) };
    if f.fail || f.eof || k <= 0 { b } else { b.take(at) + fs_get(fs, f.name).subrange(f.pos, f.pos + k) + b.skip(at + k) }
}
pub broadcast proof fn lemma_read_all(fs: FS, f: FStr, b: Seq<u8>, n: int)
    requires f.open, !f.fail, !f.eof, f.pos == 0, n == b.len(), n == fs_get(fs, f.name).len()
    ensures #[trigger] fs_read(fs, f, b, 0, n) == fs_get(fs, f.name)
{ assert(fs_read(fs, f, b, 0, n) =~= fs_get(fs, f.name)); }
pub open spec fn fstr_read(fs: FS, f: FStr, n: int) -> FStr {
    if f.fail || f.eof { FStr { fail: true, ..f } } else if n <= 0 { f } else if n <= fstr_left(fs, f) { FStr { pos: f.pos + n, ..f } } else { FStr { pos: f.pos + fstr_left(fs, f), fail: true, eof: true, ..f } }
}
pub open spec fn fs_rest(fs: FS, f: FStr) -> Seq<u8> { if f.open && 0 <= f.pos < fs_get(fs, f.name).len() { fs_get(fs, f.name).skip(f.pos) } else { Seq::empty() } }
pub open spec fn fs_end(c: Seq<u8>, p: int, d: u8) -> int { if p < c.len() { byte_find(c, d, p) } else { p } }
pub open spec fn fs_line(fs: FS, f: FStr, d: u8) -> Seq<u8> { let c = fs_get(fs, f.name); if f.pos < c.len() { c.subrange(f.pos, fs_end(c, f.pos, d)) } else { Seq::empty() } }
pub open spec fn fstr_line(fs: FS, f: FStr, d: u8) -> FStr {
    let c = fs_get(fs, f.name); let e = fs_end(c, f.pos, d);
    if !f.open || f.fail || f.eof { FStr { fail: true, ..f } } else if e < c.len() { FStr { pos: e + 1, ..f } } else { FStr { pos: e, eof: true, fail: e == f.pos, ..f } }
}
// a function nothing is known of
#[verifier::external_body] pub struct FnId { _p: u8 }
// the function (or the function that makes an object and calls a member of it) of this name
pub uninterp spec fn named_fn(name: Seq<u8>) -> FnId;
pub struct SetIt { pub found: bool }
// a stringstream: text, read position, write position, state
#[verifier::ext_equal] pub struct SStream { pub buf: Seq<u8>, pub pos: int, pub wpos: int, pub good: bool, pub fail: bool }
pub open spec fn ss_new(s: Seq<u8>) -> SStream { SStream { buf: s, pos: 0, wpos: 0, good: true, fail: false } }
pub open spec fn ss_put(a: SStream, s: Seq<u8>) -> SStream { SStream { buf: a.buf + s, wpos: (a.buf.len() + s.len()) as int, ..a } }
// first d at or after i, else the length
pub open spec fn byte_find(s: Seq<u8>, d: u8, i: int) -> int
    decreases s.len() - i
{ if i < 0 || i >= s.len() || s[i] == d { i } else { byte_find(s, d, i + 1) } }
pub open spec fn ss_item(a: SStream, old: Seq<u8>, d: u8) -> Seq<u8> {
    if !a.good { old } else { a.buf.subrange(a.pos, byte_find(a.buf, d, a.pos)) }
}
pub open spec fn ss_next(a: SStream, d: u8) -> SStream {
    let e = byte_find(a.buf, d, a.pos);
    if !a.good { SStream { fail: true, ..a } } else if e < a.buf.len() { SStream { pos: e + 1, ..a } }
    else { SStream { pos: e, good: false, fail: e == a.pos, ..a } }
}
// std::getline on an input stream whose unread bytes are `s`: the item, and what is left. At end of input the item is empty or what it was.
pub uninterp spec fn in_none(old: Seq<u8>) -> bool;
pub open spec fn in_item(s: Seq<u8>, old: Seq<u8>, d: u8) -> Seq<u8> {
    if s.len() == 0 { if in_none(old) { old } else { Seq::empty() } } else { s.subrange(0, byte_find(s, d, 0)) }
}
pub open spec fn in_rest(s: Seq<u8>, d: u8) -> Seq<u8> {
    let e = byte_find(s, d, 0);
    if e < s.len() { s.skip(e + 1) } else { Seq::empty() }
}
pub proof fn lemma_byte_find(s: Seq<u8>, d: u8, i: int)
    requires 0 <= i <= s.len()
    ensures ({ let e = byte_find(s, d, i); i <= e <= s.len() && (e < s.len() ==> s[e] == d) && forall|k: int| i <= k < e ==> s[k] != d })
    decreases s.len() - i
{ if i < s.len() && s[i] != d { lemma_byte_find(s, d, i + 1); } }

pub open spec fn char_to_int(c: u8) -> int { if c < 128 { c as int } else { c as int - 256 } }
pub open spec fn tdiv(a: int, b: int) -> int {
    if b == 0 { 0 } else if a >= 0 { if b > 0 { a / b } else { -(a / (-b)) } }
    else { if b > 0 { -((-a) / b) } else { (-a) / (-b) } }
}
pub open spec fn tmod(a: int, b: int) -> int {
    if b == 0 { 0 } else if a >= 0 { if b > 0 { a % b } else { a % (-b) } }
    else { if b > 0 { -((-a) % b) } else { -((-a) % (-b)) } }
}

pub open spec fn bor32(a: u32, b: u32) -> u32 {
    if a % 0x40 == 0 && b < 0x40 || a % 0x1000 == 0 && b < 0x1000 || a % 0x4_0000 == 0 && b < 0x4_0000
        || a % 0x20 == 0 && b < 0x20 || a % 0x10 == 0 && b < 0x10 || a % 8 == 0 && b < 8 || a % 0x80 == 0 && b < 0x80 { (a + b) as u32 } else { a | b }
}
// bor32 is the bitwise or, and the run decomposition of `x & mask` used by the extractor is the bitwise and
proof fn check_bor32(a: u32, b: u32) ensures bor32(a, b) == a | b {
    assert(a % 0x40 == 0 && b < 0x40 || a % 0x1000 == 0 && b < 0x1000 || a % 0x4_0000 == 0 && b < 0x4_0000
        || a % 0x20 == 0 && b < 0x20 || a % 0x10 == 0 && b < 0x10 || a % 8 == 0 && b < 8 || a % 0x80 == 0 && b < 0x80 ==> a | b == add(a, b) && a <= 0xffff_ffffu32 - b) by (bit_vector);
}
proof fn check_masks(x: u32) {
    assert(x & 0x80 == ((x / 0x80) % 2) * 0x80) by (bit_vector);
    assert(x & 0xE0 == ((x / 0x20) % 8) * 0x20) by (bit_vector);
    assert(x & 0xF0 == ((x / 0x10) % 16) * 0x10) by (bit_vector);
    assert(x & 0xF8 == ((x / 8) % 32) * 8) by (bit_vector);
    assert(x & 0xC0 == ((x / 0x40) % 4) * 0x40) by (bit_vector);
    assert(x & 0x3F == x % 0x40) by (bit_vector);
    assert(x & 0x1F == x % 0x20) by (bit_vector);
    assert(x & 0x0F == x % 0x10) by (bit_vector);
    assert(x & 0x07 == x % 8) by (bit_vector);
}

// ---- C strings: buf holds the bytes before the terminator at buf.len()
pub open spec fn lit(s: Seq<u8>) -> CStr { CStr { buf: s, off: 0 } }
pub open spec fn cstr_at(c: CStr, i: int) -> u8 {
    if 0 <= c.off + i < c.buf.len() { c.buf[c.off + i] } else { 0 }
}
// the null pointer (never cstr_ok)
pub open spec fn cstr_null() -> CStr { CStr { buf: Seq::empty(), off: -1 } }
pub open spec fn cstr_ok(c: CStr) -> bool { 0 <= c.off <= c.buf.len() }
pub open spec fn nulpos(s: Seq<u8>, i: int) -> int
    decreases s.len() - i
{ if i < 0 || i >= s.len() || s[i] == 0 { i } else { nulpos(s, i + 1) } }
pub open spec fn cstr_bytes(c: CStr) -> Seq<u8> { c.buf.subrange(c.off, nulpos(c.buf, c.off)) }
pub open spec fn upto_nul(s: Seq<u8>) -> Seq<u8> { cstr_bytes(CStr { buf: s, off: 0 }) }
pub open spec fn cstr_take(c: CStr, n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| cstr_at(c, i)) }
pub open spec fn no_nul(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] != 0 }
pub open spec fn str_at(s: Seq<u8>, i: int) -> u8 { if 0 <= i < s.len() { s[i] } else { 0 } }

pub proof fn lemma_nulpos(s: Seq<u8>, i: int)
    requires 0 <= i <= s.len()
    ensures i <= nulpos(s, i) <= s.len(), nulpos(s, i) < s.len() ==> s[nulpos(s, i)] == 0,
        forall|k: int| i <= k < nulpos(s, i) ==> s[k] != 0
    decreases s.len() - i
{ if i < s.len() && s[i] != 0 { lemma_nulpos(s, i + 1); } }
pub proof fn lemma_nulpos_clean(s: Seq<u8>)
    requires no_nul(s)
    ensures nulpos(s, 0) == s.len(), cstr_bytes(lit(s)) =~= s, cstr_bytes(CStr { buf: s, off: 0 }) =~= s
{ lemma_nulpos(s, 0); }

// ---- standard algorithms
pub open spec fn seq_search<T>(s: Seq<T>, i: int, j: int, p: Seq<T>) -> int
    decreases j - i
{
    if i >= j { if p.len() == 0 && i == j { i } else { j } } else if i + p.len() > j { j } else if s.subrange(i, i + p.len()) =~= p { i } else { seq_search(s, i + 1, j, p) }
}
pub open spec fn occurs_at<T>(s: Seq<T>, p: Seq<T>, i: int) -> bool {
    0 <= i && i + p.len() <= s.len() && s.subrange(i, i + p.len()) =~= p
}
pub broadcast proof fn lemma_search<T>(s: Seq<T>, i: int, j: int, p: Seq<T>)
    requires 0 <= i <= j <= s.len()
    ensures ({ let r = #[trigger] seq_search(s, i, j, p);
        i <= r <= j && (r + p.len() <= j ==> occurs_at(s, p, r))
        && (forall|k: int| i <= k < r && k + p.len() <= j ==> !#[trigger] occurs_at(s, p, k))
        && (r != j || p.len() == 0 ==> r + p.len() <= j) })
    decreases j - i
{ if i + p.len() > j { } else if s.subrange(i, i + p.len()) =~= p { } else { lemma_search(s, i + 1, j, p); } }
// searching the reversed text finds the last occurrence
pub broadcast proof fn lemma_rsearch<T>(s: Seq<T>, p: Seq<T>, i: int, j: int)
    requires 0 <= i <= j, j == s.len()
    ensures ({
        let n = s.len() as int; let m = p.len() as int;
        let r = #[trigger] seq_search(s.reverse(), i, j, p.reverse());
        i <= r <= n && (r + m <= n ==> occurs_at(s, p, n - r - m))
        && (forall|k: int| n - r - m < k <= n - m - i && 0 <= k ==> !#[trigger] occurs_at(s, p, k)) && (r != n || m == 0 ==> r + m <= n) })
{
    let n = s.len() as int; let m = p.len() as int;
    let r = seq_search(s.reverse(), i, n, p.reverse());
    lemma_search(s.reverse(), i, n, p.reverse());
    if r + m <= n { lemma_occurs_rev(s, p, n - r - m); }
    assert forall|k: int| n - r - m < k <= n - m - i && 0 <= k implies !#[trigger] occurs_at(s, p, k) by {
        lemma_occurs_rev(s, p, k);
        if occurs_at(s, p, k) { assert(occurs_at(s.reverse(), p.reverse(), n - k - m)); }
    }
}
pub broadcast proof fn lemma_equal_rev<T>(s: Seq<T>, p: Seq<T>, j: int)
    ensures #[trigger] occurs_at(s.reverse(), p.reverse(), j) == occurs_at(s, p, s.len() - j - p.len())
{ lemma_occurs_rev(s, p, s.len() - j - p.len()); }
pub proof fn lemma_occurs_rev<T>(s: Seq<T>, p: Seq<T>, k: int)
    ensures occurs_at(s, p, k) <==> occurs_at(s.reverse(), p.reverse(), s.len() - k - p.len())
{
    let n = s.len() as int; let m = p.len() as int; let j = n - k - m;
    if 0 <= k && k + m <= n {
        if s.subrange(k, k + m) =~= p {
            assert forall|i: int| 0 <= i < m implies s.reverse().subrange(j, j + m)[i] == p.reverse()[i] by {
                assert(s.subrange(k, k + m)[m - 1 - i] == p[m - 1 - i]);
            }
            assert(s.reverse().subrange(j, j + m) =~= p.reverse());
        }
        if s.reverse().subrange(j, j + m) =~= p.reverse() {
            assert forall|i: int| 0 <= i < m implies s.subrange(k, k + m)[i] == p[i] by {
                assert(s.reverse().subrange(j, j + m)[m - 1 - i] == p.reverse()[m - 1 - i]);
            }
            assert(s.subrange(k, k + m) =~= p);
        }
    }
}
pub open spec fn seq_find_if<T>(s: Seq<T>, i: int, j: int, p: spec_fn(T) -> bool) -> int
    decreases j - i
{ if i >= j { j } else if p(s[i]) { i } else { seq_find_if(s, i + 1, j, p) } }
pub broadcast proof fn lemma_find_if<T>(s: Seq<T>, i: int, j: int, p: spec_fn(T) -> bool)
    requires 0 <= i <= j <= s.len()
    ensures ({ let r = #[trigger] seq_find_if(s, i, j, p);
        i <= r <= j && (r < j ==> p(s[r])) && (forall|k: int| i <= k < r ==> !p(#[trigger] s[k])) })
    decreases j - i
{ if i < j && !p(s[i]) { lemma_find_if(s, i + 1, j, p); } }
pub open spec fn seq_resize<T>(s: Seq<T>, n: int, v: T) -> Seq<T> {
    if n <= s.len() { s.subrange(0, n) } else { s + Seq::new((n - s.len()) as nat, |i: int| v) }
}
pub open spec fn str_substr(s: Seq<u8>, p: int, n: int) -> Seq<u8> {
    s.subrange(p, if n < s.len() - p { p + n } else { s.len() as int })
}
pub open spec fn bytes_cmp(a: Seq<u8>, b: Seq<u8>) -> i32
    decreases a.len()
{
    if a.len() == 0 { if b.len() == 0 { 0i32 } else { -1i32 } } else if b.len() == 0 { 1i32 }
    else if a[0] < b[0] { -1i32 } else if a[0] > b[0] { 1i32 } else { bytes_cmp(a.skip(1), b.skip(1)) }
}
pub open spec fn str_find(s: Seq<u8>, p: Seq<u8>, i: int) -> u64 {
    if i > s.len() { 0xffff_ffff_ffff_ffff } else {
        let r = seq_search(s, i, s.len() as int, p);
        if r + p.len() <= s.len() && s.subrange(r, r + p.len()) =~= p { r as u64 } else { 0xffff_ffff_ffff_ffff }
    }
}
pub open spec fn str_find_first(s: Seq<u8>, i: int, p: spec_fn(u8) -> bool) -> u64 {
    if i >= s.len() { 0xffff_ffff_ffff_ffff } else {
        let r = seq_find_if(s, i, s.len() as int, p);
        if r < s.len() { r as u64 } else { 0xffff_ffff_ffff_ffff }
    }
}
pub proof fn lemma_bytes_cmp_eq(a: Seq<u8>, b: Seq<u8>)
    ensures bytes_cmp(a, b) == 0 <==> a =~= b
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 && a[0] == b[0] {
        lemma_bytes_cmp_eq(a.skip(1), b.skip(1));
        assert(a =~= seq![a[0]] + a.skip(1));
        assert(b =~= seq![b[0]] + b.skip(1));
    }
}
pub open spec fn seq_lt<T>(a: Seq<T>, b: Seq<T>, lt: spec_fn(T, T) -> bool) -> bool
    decreases a.len()
{
    if b.len() == 0 { false } else if a.len() == 0 { true }
    else if lt(a[0], b[0]) { true } else if lt(b[0], a[0]) { false } else { seq_lt(a.skip(1), b.skip(1), lt) }
}

// ---- decimal text
pub open spec fn is_dig(b: u8) -> bool { 48 <= b <= 57 }
pub open spec fn nat_dec(n: nat) -> Seq<u8>
    decreases n
{ if n < 10 { seq![(48 + n) as u8] } else { nat_dec(n / 10).push((48 + n % 10) as u8) } }
pub open spec fn int_dec(n: int) -> Seq<u8> { if n < 0 { seq![45u8] + nat_dec((-n) as nat) } else { nat_dec(n as nat) } }
pub open spec fn dec_val(s: Seq<u8>) -> nat
    decreases s.len()
{ if s.len() == 0 { 0 } else { dec_val(s.drop_last()) * 10 + (s.last() - 48) as nat } }
pub open spec fn all_dig(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_dig(#[trigger] s[i]) }
pub proof fn lemma_nat_dec(n: nat)
    ensures nat_dec(n).len() > 0, all_dig(nat_dec(n)), dec_val(nat_dec(n)) == n, n > 0 ==> nat_dec(n)[0] != 48,
        n == 0 ==> nat_dec(n) =~= seq![48u8], no_nul(nat_dec(n))
    decreases n
{
    if n >= 10 {
        lemma_nat_dec(n / 10);
        assert(nat_dec(n).drop_last() =~= nat_dec(n / 10));
    } else {
        assert(nat_dec(n).drop_last() =~= Seq::<u8>::empty());
        assert(dec_val(Seq::<u8>::empty()) == 0);
        assert(nat_dec(n).last() == (48 + n) as u8);
    }
}
// strtoul/strtol in a base: leading white space, optional sign, digits
pub open spec fn is_cspace(b: u8) -> bool { b == 32 || 9 <= b <= 13 }
pub open spec fn dig_val(b: u8, base: int) -> int {
    let v = if 48 <= b <= 57 { b - 48 } else if 97 <= b <= 122 { b - 87 } else if 65 <= b <= 90 { b - 55 } else { 99 };
    if v < base { v } else { -1 }
}
pub open spec fn sto_skip(s: Seq<u8>, i: int) -> int
    decreases s.len() - i
{ if 0 <= i < s.len() && is_cspace(s[i]) { sto_skip(s, i + 1) } else { i } }
pub open spec fn sto_digits(s: Seq<u8>, i: int, base: int) -> int
    decreases s.len() - i
{ if 0 <= i < s.len() && dig_val(s[i], base) >= 0 { sto_digits(s, i + 1, base) } else { i } }
pub open spec fn base_val(s: Seq<u8>, base: int) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else { base_val(s.drop_last(), base) * base + dig_val(s.last(), base) } }
pub open spec fn sto_neg(s: Seq<u8>) -> bool { str_at(s, sto_skip(s, 0)) == 45 }
pub open spec fn sto_start0(s: Seq<u8>) -> int {
    let i = sto_skip(s, 0);
    if str_at(s, i) == 45 || str_at(s, i) == 43 { i + 1 } else { i }
}
pub open spec fn sto_start(s: Seq<u8>, base: int) -> int {
    let i = sto_start0(s);
    if base == 16 && str_at(s, i) == 48 && (str_at(s, i + 1) == 120 || str_at(s, i + 1) == 88)
        && dig_val(str_at(s, i + 2), 16) >= 0 { i + 2 } else { i }
}
pub open spec fn sto_valid(s: Seq<u8>, base: int) -> bool {
    sto_digits(s, sto_start(s, base), base) > sto_start(s, base)
}
pub open spec fn sto_abs(s: Seq<u8>, base: int) -> int {
    base_val(s.subrange(sto_start(s, base), sto_digits(s, sto_start(s, base), base)), base)
}
pub open spec fn sto_val(s: Seq<u8>, base: int) -> int { if sto_neg(s) { -sto_abs(s, base) } else { sto_abs(s, base) } }
pub open spec fn sto_u_fits(s: Seq<u8>, base: int) -> bool { sto_abs(s, base) < 0x1_0000_0000_0000_0000 }
pub open spec fn sto_u(s: Seq<u8>, base: int) -> u64 { u64_wrap(sto_val(s, base)) }
pub proof fn lemma_sto_plain(s: Seq<u8>, e: int, base: int)
    requires 0 < e <= s.len(), base == 10, forall|i: int| 0 <= i < e ==> is_dig(#[trigger] s[i]),
        e < s.len() ==> !is_dig(s[e])
    ensures sto_valid(s, 10), sto_val(s, 10) == dec_val(s.subrange(0, e)), sto_abs(s, 10) == dec_val(s.subrange(0, e)), !sto_neg(s)
{
    assert(!is_cspace(s[0]));
    assert(sto_skip(s, 0) == 0);
    assert(is_dig(s[0]));
    lemma_sto_digits(s, 0, e);
    lemma_base_dec(s.subrange(0, e));
}
pub proof fn lemma_sto_digits(s: Seq<u8>, i: int, e: int)
    requires 0 <= i <= e <= s.len(), forall|k: int| i <= k < e ==> is_dig(#[trigger] s[k]), e < s.len() ==> !is_dig(s[e])
    ensures sto_digits(s, i, 10) == e
    decreases e - i
{ if i < e { assert(is_dig(s[i])); lemma_sto_digits(s, i + 1, e); } }
pub proof fn lemma_base_dec(s: Seq<u8>)
    requires all_dig(s)
    ensures base_val(s, 10) == dec_val(s)
    decreases s.len()
{ if s.len() > 0 { assert(is_dig(s[s.len() - 1])); assert(all_dig(s.drop_last())) by { assert(forall|i: int| 0 <= i < s.len() - 1 ==> s.drop_last()[i] == s[i]); } lemma_base_dec(s.drop_last()); } }
pub uninterp spec fn stod_valid(s: Seq<u8>) -> bool;
pub uninterp spec fn stod_range(s: Seq<u8>) -> bool;
pub uninterp spec fn stod_val(s: Seq<u8>) -> F64;
pub uninterp spec fn stold_valid(s: Seq<u8>) -> bool;
pub uninterp spec fn stold_range(s: Seq<u8>) -> bool;
pub uninterp spec fn stold_val(s: Seq<u8>) -> F80;

pub open spec fn u8_wrap(x: int) -> u8 {
    (if 0 <= x < 0x100 { x } else if -0x100 <= x < 0 { x + 0x100 } else if x < 2 * 0x100 && x >= 0 { x - 0x100 } else { x % 0x100 }) as u8
}
pub open spec fn i8_wrap(x: int) -> i8 {
    (if -0x80 <= x < 0x80 { x } else if 0x80 <= x < 0x100 { x - 0x100 } else if (x % 0x100) < 0x80 { x % 0x100 } else { (x % 0x100) - 0x100 }) as i8
}

pub open spec fn u16_wrap(x: int) -> u16 {
    (if 0 <= x < 0x10000 { x } else if -0x10000 <= x < 0 { x + 0x10000 } else if x < 2 * 0x10000 && x >= 0 { x - 0x10000 } else { x % 0x10000 }) as u16
}
pub open spec fn i16_wrap(x: int) -> i16 {
    (if -0x8000 <= x < 0x8000 { x } else if 0x8000 <= x < 0x10000 { x - 0x10000 } else if (x % 0x10000) < 0x8000 { x % 0x10000 } else { (x % 0x10000) - 0x10000 }) as i16
}

pub open spec fn u32_wrap(x: int) -> u32 {
    (if 0 <= x < 0x100000000 { x } else if -0x100000000 <= x < 0 { x + 0x100000000 } else if x < 2 * 0x100000000 && x >= 0 { x - 0x100000000 } else { x % 0x100000000 }) as u32
}
pub open spec fn i32_wrap(x: int) -> i32 {
    (if -0x80000000 <= x < 0x80000000 { x } else if 0x80000000 <= x < 0x100000000 { x - 0x100000000 } else if (x % 0x100000000) < 0x80000000 { x % 0x100000000 } else { (x % 0x100000000) - 0x100000000 }) as i32
}

pub open spec fn u64_wrap(x: int) -> u64 {
    (if 0 <= x < 0x10000000000000000 { x } else if -0x10000000000000000 <= x < 0 { x + 0x10000000000000000 } else if x < 2 * 0x10000000000000000 && x >= 0 { x - 0x10000000000000000 } else { x % 0x10000000000000000 }) as u64
}
pub open spec fn i64_wrap(x: int) -> i64 {
    (if -0x8000000000000000 <= x < 0x8000000000000000 { x } else if 0x8000000000000000 <= x < 0x10000000000000000 { x - 0x10000000000000000 } else if (x % 0x10000000000000000) < 0x8000000000000000 { x % 0x10000000000000000 } else { (x % 0x10000000000000000) - 0x10000000000000000 }) as i64
}

#[verifier::external_body] pub struct F32 { _p: u8 }
pub uninterp spec fn flt_lit_F32(bits: int) -> F32;
pub uninterp spec fn neg_F32(a: F32) -> F32;
pub uninterp spec fn f32_zero() -> F32;
pub uninterp spec fn flt_text_F32(a: F32) -> Seq<u8>;
pub uninterp spec fn flt_out_F32(a: F32) -> Seq<u8>;
pub uninterp spec fn add_F32(a: F32, b: F32) -> F32;
pub uninterp spec fn sub_F32(a: F32, b: F32) -> F32;
pub uninterp spec fn mul_F32(a: F32, b: F32) -> F32;
pub uninterp spec fn div_F32(a: F32, b: F32) -> F32;
pub uninterp spec fn eq_F32(a: F32, b: F32) -> bool;
pub open spec fn ne_F32(a: F32, b: F32) -> bool { !eq_F32(a, b) }
pub uninterp spec fn lt_F32(a: F32, b: F32) -> bool;
pub open spec fn gt_F32(a: F32, b: F32) -> bool { lt_F32(b, a) }
pub open spec fn le_F32(a: F32, b: F32) -> bool { lt_F32(a, b) || eq_F32(a, b) }
pub open spec fn ge_F32(a: F32, b: F32) -> bool { lt_F32(b, a) || eq_F32(b, a) }

#[verifier::external_body] pub struct F64 { _p: u8 }
// sizeof of a type the extraction does not compute itself
pub uninterp spec fn size_of(k: int) -> int;
pub uninterp spec fn flt_lit_F64(bits: int) -> F64;
pub uninterp spec fn neg_F64(a: F64) -> F64;
pub uninterp spec fn f64_zero() -> F64;
pub uninterp spec fn flt_text_F64(a: F64) -> Seq<u8>;
pub uninterp spec fn flt_out_F64(a: F64) -> Seq<u8>;
pub uninterp spec fn add_F64(a: F64, b: F64) -> F64;
pub uninterp spec fn sub_F64(a: F64, b: F64) -> F64;
pub uninterp spec fn mul_F64(a: F64, b: F64) -> F64;
pub uninterp spec fn div_F64(a: F64, b: F64) -> F64;
pub uninterp spec fn eq_F64(a: F64, b: F64) -> bool;
pub open spec fn ne_F64(a: F64, b: F64) -> bool { !eq_F64(a, b) }
pub uninterp spec fn lt_F64(a: F64, b: F64) -> bool;
pub open spec fn gt_F64(a: F64, b: F64) -> bool { lt_F64(b, a) }
pub open spec fn le_F64(a: F64, b: F64) -> bool { lt_F64(a, b) || eq_F64(a, b) }
pub open spec fn ge_F64(a: F64, b: F64) -> bool { lt_F64(b, a) || eq_F64(b, a) }

#[verifier::external_body] pub struct F80 { _p: u8 }
pub uninterp spec fn flt_lit_F80(bits: int) -> F80;
pub uninterp spec fn neg_F80(a: F80) -> F80;
pub uninterp spec fn f80_zero() -> F80;
pub uninterp spec fn flt_text_F80(a: F80) -> Seq<u8>;
pub uninterp spec fn flt_out_F80(a: F80) -> Seq<u8>;
pub uninterp spec fn add_F80(a: F80, b: F80) -> F80;
pub uninterp spec fn sub_F80(a: F80, b: F80) -> F80;
pub uninterp spec fn mul_F80(a: F80, b: F80) -> F80;
pub uninterp spec fn div_F80(a: F80, b: F80) -> F80;
pub uninterp spec fn eq_F80(a: F80, b: F80) -> bool;
pub open spec fn ne_F80(a: F80, b: F80) -> bool { !eq_F80(a, b) }
pub uninterp spec fn lt_F80(a: F80, b: F80) -> bool;
pub open spec fn gt_F80(a: F80, b: F80) -> bool { lt_F80(b, a) }
pub open spec fn le_F80(a: F80, b: F80) -> bool { lt_F80(a, b) || eq_F80(a, b) }
pub open spec fn ge_F80(a: F80, b: F80) -> bool { lt_F80(b, a) || eq_F80(b, a) }
pub uninterp spec fn cast_F32_F64(a: F32) -> F64;
pub uninterp spec fn cast_F32_F80(a: F32) -> F80;
pub uninterp spec fn cast_i8_F32(a: i8) -> F32;
pub uninterp spec fn cast_F32_i8(a: F32) -> i8;
pub uninterp spec fn cast_u8_F32(a: u8) -> F32;
pub uninterp spec fn cast_F32_u8(a: F32) -> u8;
pub uninterp spec fn cast_i16_F32(a: i16) -> F32;
pub uninterp spec fn cast_F32_i16(a: F32) -> i16;
pub uninterp spec fn cast_u16_F32(a: u16) -> F32;
pub uninterp spec fn cast_F32_u16(a: F32) -> u16;
pub uninterp spec fn cast_i32_F32(a: i32) -> F32;
pub uninterp spec fn cast_F32_i32(a: F32) -> i32;
pub uninterp spec fn cast_u32_F32(a: u32) -> F32;
pub uninterp spec fn cast_F32_u32(a: F32) -> u32;
pub uninterp spec fn cast_i64_F32(a: i64) -> F32;
pub uninterp spec fn cast_F32_i64(a: F32) -> i64;
pub uninterp spec fn cast_u64_F32(a: u64) -> F32;
pub uninterp spec fn cast_F32_u64(a: F32) -> u64;
pub uninterp spec fn cast_F64_F32(a: F64) -> F32;
pub uninterp spec fn cast_F64_F80(a: F64) -> F80;
pub uninterp spec fn cast_i8_F64(a: i8) -> F64;
pub uninterp spec fn cast_F64_i8(a: F64) -> i8;
pub uninterp spec fn cast_u8_F64(a: u8) -> F64;
pub uninterp spec fn cast_F64_u8(a: F64) -> u8;
pub uninterp spec fn cast_i16_F64(a: i16) -> F64;
pub uninterp spec fn cast_F64_i16(a: F64) -> i16;
pub uninterp spec fn cast_u16_F64(a: u16) -> F64;
pub uninterp spec fn cast_F64_u16(a: F64) -> u16;
pub uninterp spec fn cast_i32_F64(a: i32) -> F64;
pub uninterp spec fn cast_F64_i32(a: F64) -> i32;
pub uninterp spec fn cast_u32_F64(a: u32) -> F64;
pub uninterp spec fn cast_F64_u32(a: F64) -> u32;
pub uninterp spec fn cast_i64_F64(a: i64) -> F64;
pub uninterp spec fn cast_F64_i64(a: F64) -> i64;
pub uninterp spec fn cast_u64_F64(a: u64) -> F64;
pub uninterp spec fn cast_F64_u64(a: F64) -> u64;
pub uninterp spec fn cast_F80_F32(a: F80) -> F32;
pub uninterp spec fn cast_F80_F64(a: F80) -> F64;
pub uninterp spec fn cast_i8_F80(a: i8) -> F80;
pub uninterp spec fn cast_F80_i8(a: F80) -> i8;
pub uninterp spec fn cast_u8_F80(a: u8) -> F80;
pub uninterp spec fn cast_F80_u8(a: F80) -> u8;
pub uninterp spec fn cast_i16_F80(a: i16) -> F80;
pub uninterp spec fn cast_F80_i16(a: F80) -> i16;
pub uninterp spec fn cast_u16_F80(a: u16) -> F80;
pub uninterp spec fn cast_F80_u16(a: F80) -> u16;
pub uninterp spec fn cast_i32_F80(a: i32) -> F80;
pub uninterp spec fn cast_F80_i32(a: F80) -> i32;
pub uninterp spec fn cast_u32_F80(a: u32) -> F80;
pub uninterp spec fn cast_F80_u32(a: F80) -> u32;
pub uninterp spec fn cast_i64_F80(a: i64) -> F80;
pub uninterp spec fn cast_F80_i64(a: F80) -> i64;
pub uninterp spec fn cast_u64_F80(a: u64) -> F80;
pub uninterp spec fn cast_F80_u64(a: F80) -> u64;

// IEEE comparison of doubles: NaN is the value unequal to itself, everything else is totally ordered
pub open spec fn nan_F64(a: F64) -> bool { !eq_F64(a, a) }
#[verifier::external_body]
pub broadcast proof fn axiom_lt_F64(a: F64, b: F64)
    ensures #[trigger] lt_F64(a, b) ==> !nan_F64(a) && !nan_F64(b) && !eq_F64(a, b) && !eq_F64(b, a) && !lt_F64(b, a),
        !lt_F64(a, b) && !lt_F64(b, a) ==> nan_F64(a) || nan_F64(b) || eq_F64(a, b) && eq_F64(b, a)
{}
#[verifier::external_body]
pub broadcast proof fn axiom_eq_F64(a: F64, b: F64)
    ensures #[trigger] eq_F64(a, b) ==> eq_F64(b, a) && !nan_F64(a) && !nan_F64(b)
{}
#[verifier::external_body]
pub broadcast proof fn axiom_lit_F64(k: int)
    ensures !nan_F64(#[trigger] flt_lit_F64(k))
{}
