from contract import Contract as C, loop

FROM_BYTES = dict(throws=True, ensures=[
    'exc is None <==> char_valid({b})', 'exc is None ==> {o}.data_ =~= {b}',
    '!(exc is None) ==> exc is InvalidArgument'])


def fb(b, o, extra=()):
    return dict(throws=True, ensures=[e.format(b=b, o=o) for e in FROM_BYTES['ensures']] + list(extra))


KEEP = ['!(exc is None) ==> this1 == this']
CMP = lambda op: f'(bytes_cmp(this.data_, other.data_) {op} 0)'
CHAR = [
    C('Char::IsContinuationByte', params=['c'], pure='is_cont(c)'),
    C('Char::IsValidUtf8Char', params=['str'], pure='char_valid(str)'),
    C('Char::CalculateLength', params=['codePoint'], pure='cp_len(codePoint)'),
    C('Char::FromCodePoint', params=['codePoint'], requires='codePoint < 0x20_0000',
      ensures=['r =~= utf8_enc(codePoint)', 'char_ok(r)']),
    C('Char::Char', 'void (const StdChar)', params=['byte'], **fb('seq![byte]', 'r')),
    C('Char::Char', 'void (const CodePoint)', params=['codePoint'], requires='codePoint < 0x20_0000',
      ensures=['r.data_ =~= utf8_enc(codePoint)', 'char_ok(r.data_)']),
    C('Char::Char', 'void (const char *)', params=['bytes'], requires='cstr_ok(bytes)', **fb('cstr_bytes(bytes)', 'r')),
    C('Char::Char', 'void (const DataType &)', params=['bytes'], **fb('bytes', 'r')),
    C('Char::operator=', 'Char &(const char)', params=['byte'], **fb('seq![byte]', 'this1', KEEP)),
    C('Char::operator=', 'Char &(const CodePoint)', params=['codePoint'], requires='codePoint < 0x20_0000',
      ensures=['this1.data_ =~= utf8_enc(codePoint)', 'char_ok(this1.data_)']),
    C('Char::operator=', 'Char &(const char *)', params=['bytes'], requires='cstr_ok(bytes)',
      **fb('cstr_bytes(bytes)', 'this1', KEEP)),
    C('Char::operator=', 'Char &(const DataType &)', params=['bytes'], **fb('bytes', 'this1', KEEP)),
    C('Char::size', pure='(this.data_.len() as u64)'),
    C('Char::Length', pure='(this.data_.len() as u64)'),
    C('Char::data', pure='CStr { buf: this.data_, off: 0 }'),
    C('Char::c_str', pure='CStr { buf: this.data_, off: 0 }'),
    C('Char::str', pure='this.data_'),
    C('Char::IsEmpty', pure='(this.data_.len() == 0)'),
    C('Char::NotEmpty', pure='(this.data_.len() != 0)'),
    C('Char::operator>', params=['other'], pure=CMP('>')),
    C('Char::operator<', params=['other'], pure=CMP('<')),
    C('Char::operator>=', params=['other'], pure=CMP('>=')),
    C('Char::operator<=', params=['other'], pure=CMP('<=')),
    C('Char::operator==', params=['other'], pure='(this =~= other)', structural=True),
    C('Char::operator!=', params=['other'], pure='!(this =~= other)'),
    C('Char::GetCodePoint', requires='char_ok(this.data_)', pure='utf8_cp(this.data_)'),
    C('CaitlynOps::operator<<', 'std::ostream &(std::ostream &, const Char &)', params=['os', 'c'], requires='char_ok(c.data_)',
      ensures=['os1 =~= os + upto_nul(c.data_)']),
    C('CaitlynOps::operator""_char', params=['str', '_n'], requires='cstr_ok(str)', **fb('cstr_bytes(str)', 'r')),
]
