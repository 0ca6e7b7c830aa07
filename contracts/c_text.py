"""text utilities and StringBuilder"""
from contract import Contract as C, loop
import c_format

SPACE = 'uc_space(utf8_cp({}.data_))'.format
UTIL = [
    C('Split', params=['text', 'delim'], ensures=['r =~= pieces(text, delim, 0)'],
      loops=[loop(inv=['ss.buf == text', '0 <= ss.pos <= text.len()', 'ss.good || ss.pos == text.len()', '!ss.fail',
                       'data + pieces(text, delim, ss.pos) =~= pieces(text, delim, 0)'],
                  ens=['data =~= pieces(text, delim, 0)'], dec='text.len() - ss.pos + (if ss.good { 1int } else { 0int })',
                  head='lemma_byte_find(text, delim, ss.pos);')]),
    C('Repeat', params=['str', 'count'], ensures=['r =~= rept(str, count as int)'],
      entry='assert(rept(str, 1) =~= rept(str, 0) + str); assert(rept(str, 0) + str =~= str);',
      loops=[loop(inv=['i <= count', 'ss.buf =~= rept(str, i as int)', 'ss.wpos == ss.buf.len()'], dec='count - i')]),
    C('EscapeString', params=['str'], requires='sok(str.data_)', throws=True, ensures=['exc is None', 'r.data_ =~= u8split(esc(str.data_, 0)) && sok(r.data_)',
                                                          'flat(r.data_) =~= esc(str.data_, 0)'],
      entry='broadcast use lemma_lit1; lemma_esc_clean(str.data_, 0); lemma_text_roundtrip(esc(str.data_, 0));',
      loops=[loop(inv=['i <= str.data_.len()', 'oss + esc(str.data_, i as int) =~= esc(str.data_, 0)'], dec='str.data_.len() - i',
                  start='let ghost _i = i as int; let ghost _o = oss; assert(char_ok(str.data_[_i].data_));',
                  end='''assert(i == _i + esc_len(str.data_, _i));
 if one(str.data_[_i]) == 92 { assert(str.data_[_i].data_ =~= seq![92u8]); assert(upto_nul(str.data_[_i].data_) == cstr_bytes(lit(seq![92u8]))); }
 assert(oss =~= _o + esc_out(str.data_, _i));
                         assert(esc(str.data_, _i) == esc_out(str.data_, _i) + esc(str.data_, i as int));
                         assert(oss + esc(str.data_, i as int) =~= _o + esc(str.data_, _i));''')],
      calls={'str': dict(after='lemma_hex4(str.data_, i + 2, ret_); if hex4(str.data_, i + 2) { lemma_enc_clean(hex4_val(str.data_, i + 2) as u32); lemma_nulpos_clean(utf8_enc(hex4_val(str.data_, i + 2) as u32)); }')}),
    C('IsNumber', params=['str'], requires='sok(str.data_)',
      ensures=['r <==> str.data_.len() > 0 && (forall|i: int| 0 <= i < str.data_.len() ==> uc_digit(utf8_cp(#[trigger] str.data_[i].data_)))']),
    C('FindFirstNonSpace', params=['str'], requires='sok(str.data_)',
      ensures=['r <= str.data_.len()', f'r < str.data_.len() ==> !{SPACE("str.data_[r as int]")}',
               f'forall|k: int| 0 <= k < r ==> uc_space(utf8_cp(#[trigger] str.data_[k].data_))'],
      loops=[loop(inv=['i <= str.data_.len()', 'forall|k: int| 0 <= k < i ==> uc_space(utf8_cp(#[trigger] str.data_[k].data_))'], dec='str.data_.len() - i')]),
    C('FindLastNonSpace', params=['str'], requires='sok(str.data_)',
      ensures=['r <= str.data_.len()', f'r < str.data_.len() ==> !{SPACE("str.data_[r as int]")} && (forall|k: int| r < k < str.data_.len() ==> uc_space(utf8_cp(#[trigger] str.data_[k].data_)))',
               f'r == str.data_.len() ==> (forall|k: int| 0 <= k < r ==> uc_space(utf8_cp(#[trigger] str.data_[k].data_)))'],
      loops=[loop(inv=['i <= str.data_.len()', 'forall|k: int| i <= k < str.data_.len() ==> uc_space(utf8_cp(#[trigger] str.data_[k].data_))'], dec='i')]),
]
BUILD = [
    C('StringBuilder::StringBuilder', 'void (const char)', params=['str'], ensures=['r.data_ =~= seq![str]']),
    C('StringBuilder::StringBuilder', 'void (const char *)', params=['str'], requires='cstr_ok(str)', ensures=['r.data_ =~= cstr_bytes(str)']),
    C('StringBuilder::StringBuilder', 'void (const String &)', params=['str'], ensures=['r.data_ =~= flat(str.data_)']),
    C('StringBuilder::StringBuilder', 'void (const StringBuilder &)', params=['other'], ensures=['r.data_ =~= other.data_']),
    C('StringBuilder::StringBuilder', 'void (StringBuilder &&) noexcept', params=['other'], ensures=['r.data_ =~= other.data_']),
    C('StringBuilder::Append', 'void (const String &)', params=['str'], ensures=['this1.data_ =~= this.data_ + flat(str.data_)']),
    C('StringBuilder::AppendLine', 'void (const String &)', params=['str'], ensures=['this1.data_ =~= this.data_ + flat(str.data_).push(10)']),
    C('StringBuilder::str', throws=True, ensures=['exc is None <==> u8ok(upto_nul(this.data_))',
      'exc is None ==> r.data_ =~= u8split(upto_nul(this.data_)) && sok(r.data_)']),
    C('MakeText', 'StringBuilder ()', ensures=['r.data_ =~= Seq::<u8>::empty()']),
    C('MakeText', 'StringBuilder (const char)', params=['c'], ensures=['r.data_ =~= seq![c]']),
    C('MakeText', 'StringBuilder (const String &)', params=['str'], ensures=['r.data_ =~= flat(str.data_)']),
]


def formatted(kinds):
    n = len(kinds)
    names = [f'a{i}' for i in range(n)]
    seq = 'seq![' + ', '.join(c_format.KINDS[k][1].format(a) for k, a in zip(kinds, names)) + ']'
    sig = ', '.join(['const String &'] + [c_format.KINDS[k][0] for k in kinds])
    req = ' && '.join(['sok(str.data_)'] + [f'sok({a}.data_)' for k, a in zip(kinds, names) if k == 's'])
    out = f'fmt(str.data_, {seq}, 0, 0)'
    p = ['str'] + names
    return [
        C('StringBuilder::StringBuilder', f'void ({sig})', params=p, requires=req, throws=True, ensures=[f'exc is None <==> {out}.ok', f'exc is None ==> r.data_ =~= {out}.text']),
        C('StringBuilder::Append', f'void ({sig})', params=p, requires=req, throws=True, ensures=[f'exc is None <==> {out}.ok', f'this1.data_ =~= (if {out}.ok {{ this.data_ + {out}.text }} else {{ this.data_ }})']),
        C('StringBuilder::AppendLine', f'void ({sig})', params=p, requires=req, throws=True, ensures=[f'exc is None <==> {out}.ok', f'this1.data_ =~= (if {out}.ok {{ this.data_ + {out}.text.push(10) }} else {{ this.data_ }})']),
        C('MakeText', f'StringBuilder ({sig})', params=p, requires=req, throws=True, ensures=[f'exc is None <==> {out}.ok', f'exc is None ==> r.data_ =~= {out}.text']),
    ]


FKINDS = ['s', 'i', 'ss', 'si']
FORMATTED = [c for k in FKINDS for c in formatted(k)]
INST = c_format.INST + 'namespace Caitlyn { inline void vp_inst_build(const String& f, const String& s, const int& i) { StringBuilder b; ' + ''.join(
    f'StringBuilder {{f, {a}}}; b.Append(f, {a}); b.AppendLine(f, {a}); MakeText(f, {a}); ' for a in (', '.join(k) for k in FKINDS)) + '} }\n'
