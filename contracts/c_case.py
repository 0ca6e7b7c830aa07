from contract import Contract as C, loop

MAPPED = lambda f: f'forall|k: int| 0 <= k < this.data_.len() ==> #[trigger] r.data_[k] == (XChar {{ data_: utf8_enc({f}(utf8_cp(this.data_[k].data_))) }})'
def case_loop(f):
    return [loop(inv=['tmp.len() == this.data_.len()', 'forall|k: int| _i <= k < tmp.len() ==> #[trigger] tmp[k] == this.data_[k]',
                      f'forall|k: int| 0 <= k < _i ==> #[trigger] tmp[k] == (XChar {{ data_: utf8_enc({f}(utf8_cp(this.data_[k].data_))) }})'],
                 start=f'assert(char_ok(this.data_[_i].data_)); lemma_case_range(utf8_cp(this.data_[_i].data_));')]


CASE = [
    C('IsSpace', params=['codePoint'], pure='uc_space(codePoint)'),
    C('IsDigit', params=['codePoint'], pure='uc_digit(codePoint)'),
    C('ToUppercase', 'CodePoint (const CodePoint)', params=['codePoint'], pure='uc_toupper(codePoint)'),
    C('ToLowercase', 'CodePoint (const CodePoint)', params=['codePoint'], pure='uc_tolower(codePoint)'),
    C('ToUppercase', 'Char (const Char &)', params=['value'], requires='char_ok(value.data_)',
      ensures=['r.data_ =~= utf8_enc(uc_toupper(utf8_cp(value.data_)))'], entry='lemma_case_range(utf8_cp(value.data_));'),
    C('ToLowercase', 'Char (const Char &)', params=['value'], requires='char_ok(value.data_)',
      ensures=['r.data_ =~= utf8_enc(uc_tolower(utf8_cp(value.data_)))'], entry='lemma_case_range(utf8_cp(value.data_));'),
    C('IsUppercase', params=['codePoint'], pure='uc_upper(codePoint)'),
    C('IsLowercase', params=['codePoint'], pure='uc_lower(codePoint)'),
    C('IsLetter', params=['codepoint'], pure='(uc_upper(codepoint) || uc_lower(codepoint))'),
    C('ToDigit', params=['codepoint'], pure='(if 0x30 <= codepoint <= 0x39 { (codepoint - 0x30) as i32 } else { -1i32 })'),
]
STRCASE = [
    C('String::ToUppercase', requires='sok(this.data_)', ensures=['r.data_.len() == this.data_.len()', MAPPED('uc_toupper')], loops=case_loop('uc_toupper')),
    C('String::ToLowercase', requires='sok(this.data_)', ensures=['r.data_.len() == this.data_.len()', MAPPED('uc_tolower')], loops=case_loop('uc_tolower')),
]
