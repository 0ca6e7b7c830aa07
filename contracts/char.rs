// UTF-8, independent of the code
pub open spec fn is_cont(b: u8) -> bool { 0x80 <= b < 0xC0 }
pub open spec fn lead_len(b: u8) -> int {
    if b < 0x80 { 1 } else if 0xC0 <= b < 0xE0 { 2 } else if 0xE0 <= b < 0xF0 { 3 } else if 0xF0 <= b < 0xF8 { 4 } else { 0 }
}
pub open spec fn char_valid(s: Seq<u8>) -> bool {
    s.len() > 0 && lead_len(s[0]) == s.len() && (forall|i: int| 1 <= i < s.len() ==> is_cont(#[trigger] s[i]))
}
// what every Char holds: nothing, or one well-formed unit
pub open spec fn char_ok(s: Seq<u8>) -> bool { s.len() == 0 || char_valid(s) }
pub open spec fn cp_len(c: u32) -> u64 { if c < 0x80 { 1 } else if c < 0x800 { 2 } else if c < 0x10000 { 3 } else { 4 } }
pub open spec fn contb(v: int) -> u8 { (0x80 + v % 0x40) as u8 }
pub open spec fn utf8_enc(c: u32) -> Seq<u8> {
    let v = c as int;
    if v == 0 { Seq::empty() }
    else if v < 0x80 { seq![v as u8] }
    else if v < 0x800 { seq![(0xC0 + v / 0x40) as u8, contb(v)] }
    else if v < 0x10000 { seq![(0xE0 + v / 0x1000) as u8, contb(v / 0x40), contb(v)] }
    else { seq![(0xF0 + v / 0x4_0000) as u8, contb(v / 0x1000), contb(v / 0x40), contb(v)] }
}
pub open spec fn utf8_cp(s: Seq<u8>) -> u32 {
    (if s.len() == 0 { 0 }
    else if s[0] < 0x80 { s[0] as int }
    else if lead_len(s[0]) == 2 { (s[0] % 0x20) * 0x40 + s[1] % 0x40 }
    else if lead_len(s[0]) == 3 { (s[0] % 0x10) * 0x1000 + (s[1] % 0x40) * 0x40 + s[2] % 0x40 }
    else if lead_len(s[0]) == 4 { (s[0] % 8) * 0x4_0000 + (s[1] % 0x40) * 0x1000 + (s[2] % 0x40) * 0x40 + s[3] % 0x40 }
    else { 0 }) as u32
}
#[verifier::spinoff_prover] #[verifier::rlimit(100)]
pub proof fn lemma_utf8_roundtrip(c: u32)
    requires c < 0x20_0000
    ensures utf8_cp(utf8_enc(c)) == c, c > 0 ==> char_valid(utf8_enc(c)), c > 0 ==> utf8_enc(c).len() == cp_len(c),
        char_ok(utf8_enc(c))
{
    let v = c as int;
    let s = utf8_enc(c);
    if v >= 0x80 && v < 0x800 { assert(s[0] % 0x20 == v / 0x40); assert(s[1] % 0x40 == v % 0x40); }
    else if v >= 0x800 && v < 0x10000 {
        assert(s[0] % 0x10 == v / 0x1000); assert(s[1] % 0x40 == (v / 0x40) % 0x40); assert(s[2] % 0x40 == v % 0x40);
    } else if v >= 0x10000 {
        assert(s[0] % 8 == v / 0x4_0000); assert(s[1] % 0x40 == (v / 0x1000) % 0x40);
        assert(s[2] % 0x40 == (v / 0x40) % 0x40); assert(s[3] % 0x40 == v % 0x40);
    }
}
// distinct code points have distinct encodings, and only the empty text is the encoding of 0
pub proof fn lemma_utf8_injective(a: u32, b: u32)
    requires a < 0x20_0000, b < 0x20_0000, utf8_enc(a) == utf8_enc(b)
    ensures a == b
{ lemma_utf8_roundtrip(a); lemma_utf8_roundtrip(b); }
