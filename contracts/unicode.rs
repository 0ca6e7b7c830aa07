// Case mapping and classes, derived from the Unicode character database (15.0), not from the code.
// Supported: Basic Latin, Latin Extended-A to U+0177, Greek, Cyrillic, Greek Extended.
pub open spec fn uc_space(c: u32) -> bool { 0x9 <= c <= 0xD || c == 0x20 || c == 0x85 || c == 0xA0 || c == 0x1680 || 0x2000 <= c <= 0x200A || 0x2028 <= c <= 0x2029 || c == 0x202F || c == 0x205F || c == 0x3000 }
pub open spec fn uc_digit(c: u32) -> bool { 0x30 <= c <= 0x39 || 0x660 <= c <= 0x669 || 0x6F0 <= c <= 0x6F9 || 0x7C0 <= c <= 0x7C9 || 0x966 <= c <= 0x96F || 0x9E6 <= c <= 0x9EF || 0xA66 <= c <= 0xA6F || 0xAE6 <= c <= 0xAEF || 0xB66 <= c <= 0xB6F || 0xBE6 <= c <= 0xBEF || 0xC66 <= c <= 0xC6F || 0xCE6 <= c <= 0xCEF || 0xD66 <= c <= 0xD6F || 0xE50 <= c <= 0xE59 || 0xED0 <= c <= 0xED9 || 0xF20 <= c <= 0xF29 || 0x1040 <= c <= 0x1049 || 0x1090 <= c <= 0x1099 || 0x17E0 <= c <= 0x17E9 || 0x1810 <= c <= 0x1819 || 0x1946 <= c <= 0x194F || 0x19D0 <= c <= 0x19D9 || 0x1A80 <= c <= 0x1A89 || 0x1A90 <= c <= 0x1A99 || 0x1B50 <= c <= 0x1B59 || 0x1BB0 <= c <= 0x1BB9 || 0x1C40 <= c <= 0x1C49 || 0x1C50 <= c <= 0x1C59 || 0xA620 <= c <= 0xA629 || 0xA8D0 <= c <= 0xA8D9 || 0xA900 <= c <= 0xA909 || 0xA9D0 <= c <= 0xA9D9 || 0xA9F0 <= c <= 0xA9F9 || 0xAA50 <= c <= 0xAA59 || 0xABF0 <= c <= 0xABF9 || 0xFF10 <= c <= 0xFF19 }
pub open spec fn uc_upper(c: u32) -> bool { 0x41 <= c <= 0x5A || c == 0x130 || 0x391 <= c <= 0x3A1 || 0x3A3 <= c <= 0x3A9 || 0x410 <= c <= 0x42F || c == 0x1E9E || 0x1F08 <= c <= 0x1F0F || 0x1F18 <= c <= 0x1F1D || 0x1F28 <= c <= 0x1F2F || 0x1F38 <= c <= 0x1F3F || 0x1F48 <= c <= 0x1F4D || 0x1F68 <= c <= 0x1F6F || 0x1FB8 <= c <= 0x1FBB || 0x1FC8 <= c <= 0x1FCB || 0x1FD8 <= c <= 0x1FDB || 0x1FE8 <= c <= 0x1FEC || 0x212A <= c <= 0x212B }
pub open spec fn uc_lower(c: u32) -> bool { 0x61 <= c <= 0x7A || c == 0xDF || c == 0x131 || c == 0x149 || 0x3B1 <= c <= 0x3C1 || 0x3C3 <= c <= 0x3C9 || 0x430 <= c <= 0x44F || 0x1F00 <= c <= 0x1F07 || 0x1F10 <= c <= 0x1F15 || 0x1F20 <= c <= 0x1F27 || 0x1F30 <= c <= 0x1F37 || 0x1F40 <= c <= 0x1F45 || 0x1F60 <= c <= 0x1F67 || 0x1F70 <= c <= 0x1F7D }
pub open spec fn uc_toupper(c: u32) -> u32 {
    if 0x61 <= c <= 0x7A { (c - 0x20) as u32 }
    else if c == 0xDF { (c + 0x1DBF) as u32 }
    else if 0x101 <= c <= 0x12F && c % 2 == 1 { (c - 0x1) as u32 }
    else if c == 0x131 { (c - 0xE8) as u32 }
    else if 0x133 <= c <= 0x137 && c % 2 == 1 { (c - 0x1) as u32 }
    else if 0x13A <= c <= 0x148 && c % 2 == 0 { (c - 0x1) as u32 }
    else if c == 0x149 { (c + 0x173) as u32 }
    else if 0x14B <= c <= 0x177 && c % 2 == 1 { (c - 0x1) as u32 }
    else if 0x3B1 <= c <= 0x3C1 { (c - 0x20) as u32 }
    else if 0x3C3 <= c <= 0x3C9 { (c - 0x20) as u32 }
    else if 0x430 <= c <= 0x44F { (c - 0x20) as u32 }
    else if 0x1F00 <= c <= 0x1F07 { (c + 0x8) as u32 }
    else if 0x1F10 <= c <= 0x1F15 { (c + 0x8) as u32 }
    else if 0x1F20 <= c <= 0x1F27 { (c + 0x8) as u32 }
    else if 0x1F30 <= c <= 0x1F37 { (c + 0x8) as u32 }
    else if 0x1F40 <= c <= 0x1F45 { (c + 0x8) as u32 }
    else if 0x1F60 <= c <= 0x1F67 { (c + 0x8) as u32 }
    else if 0x1F70 <= c <= 0x1F71 { (c + 0x4A) as u32 }
    else if 0x1F72 <= c <= 0x1F75 { (c + 0x56) as u32 }
    else if 0x1F76 <= c <= 0x1F77 { (c + 0x64) as u32 }
    else if 0x1F78 <= c <= 0x1F79 { (c + 0x80) as u32 }
    else if 0x1F7A <= c <= 0x1F7B { (c + 0x70) as u32 }
    else if 0x1F7C <= c <= 0x1F7D { (c + 0x7E) as u32 }
    else { c }
}
pub open spec fn uc_tolower(c: u32) -> u32 {
    if 0x41 <= c <= 0x5A { (c + 0x20) as u32 }
    else if 0x100 <= c <= 0x12E && c % 2 == 0 { (c + 0x1) as u32 }
    else if c == 0x130 { (c - 0xC7) as u32 }
    else if 0x132 <= c <= 0x136 && c % 2 == 0 { (c + 0x1) as u32 }
    else if 0x139 <= c <= 0x147 && c % 2 == 1 { (c + 0x1) as u32 }
    else if 0x14A <= c <= 0x176 && c % 2 == 0 { (c + 0x1) as u32 }
    else if 0x391 <= c <= 0x3A1 { (c + 0x20) as u32 }
    else if 0x3A3 <= c <= 0x3A9 { (c + 0x20) as u32 }
    else if 0x410 <= c <= 0x42F { (c + 0x20) as u32 }
    else if c == 0x1E9E { (c - 0x1DBF) as u32 }
    else if 0x1F08 <= c <= 0x1F0F { (c - 0x8) as u32 }
    else if 0x1F18 <= c <= 0x1F1D { (c - 0x8) as u32 }
    else if 0x1F28 <= c <= 0x1F2F { (c - 0x8) as u32 }
    else if 0x1F38 <= c <= 0x1F3F { (c - 0x8) as u32 }
    else if 0x1F48 <= c <= 0x1F4D { (c - 0x8) as u32 }
    else if 0x1F68 <= c <= 0x1F6F { (c - 0x8) as u32 }
    else if 0x1FB8 <= c <= 0x1FB9 { (c - 0x8) as u32 }
    else if 0x1FBA <= c <= 0x1FBB { (c - 0x4A) as u32 }
    else if 0x1FC8 <= c <= 0x1FCB { (c - 0x56) as u32 }
    else if 0x1FD8 <= c <= 0x1FD9 { (c - 0x8) as u32 }
    else if 0x1FDA <= c <= 0x1FDB { (c - 0x64) as u32 }
    else if 0x1FE8 <= c <= 0x1FE9 { (c - 0x8) as u32 }
    else if 0x1FEA <= c <= 0x1FEB { (c - 0x70) as u32 }
    else if c == 0x1FEC { (c - 0x7) as u32 }
    else if c == 0x212A { (c - 0x20BF) as u32 }
    else if c == 0x212B { (c - 0x2046) as u32 }
    else { c }
}
// the mappings stay inside Unicode and invert each other on the letters of one case with a counterpart of the other
pub proof fn lemma_case_range(c: u32)
    requires c < 0x20_0000
    ensures uc_toupper(c) < 0x20_0000, uc_tolower(c) < 0x20_0000
{}
pub proof fn lemma_case_inverse(c: u32)
    requires uc_lower(c), c != 0x131, c != 0x149
    ensures uc_tolower(uc_toupper(c)) == c || 0x1F78 <= c <= 0x1F79 || 0x1F7C <= c <= 0x1F7D
{}
