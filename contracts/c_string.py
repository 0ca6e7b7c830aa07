from contract import Contract as C, loop
from c_char import CHAR

# --- C text decoding
DECODE = C('String::DecodeUtf8Char', params=['cstr'], requires=['cstr_ok(cstr)'], throws=True, ensures=[
    'cstr1 == cstr',
    'cstr_bytes(cstr).len() > 0 ==> (exc is None <==> (0 < lead_len(cstr_bytes(cstr)[0]) <= cstr_bytes(cstr).len() '
    '&& char_valid(cstr_bytes(cstr).subrange(0, lead_len(cstr_bytes(cstr)[0])))))',
    'exc is None && cstr_bytes(cstr).len() > 0 ==> r.data_ =~= cstr_bytes(cstr).subrange(0, lead_len(cstr_bytes(cstr)[0]))',
    '!(exc is None) ==> (exc is InvalidArgument || exc is RuntimeError)'],
    entry='lemma_nulpos(cstr.buf, cstr.off);',
    loops=[loop(inv=['i <= len', 'bytes.len() == i', 'cstr == cstr0', 'i <= cstr_bytes(cstr).len()',
                     'bytes =~= cstr_bytes(cstr).subrange(0, i as int)',
                     'nulpos(cstr.buf, cstr.off) >= cstr.off', 'nulpos(cstr.buf, cstr.off) <= cstr.buf.len()'],
                ens=['i == len || i == cstr_bytes(cstr).len()'],
                dec='len - i')],
    ret='''assert(bytes =~= cstr_bytes(cstr).subrange(0, bytes.len() as int)); assert(cstr_bytes(cstr).len() > 0 ==> cstr_bytes(cstr)[0] == cstr_at(cstr, 0));
           if cstr_bytes(cstr).len() > 0 && bytes.len() > 0 { assert(bytes[0] == cstr_bytes(cstr)[0]); }''')
def decode_fn(qual, sig, var, params, acc, ensures, requires=(), rootvar=None, nocstr=False):
    root = rootvar or f'{var}0'
    lp = loop(inv=[f'cstr_ok({var})', f'{var}.buf == {root}.buf', f'{var}.off >= {root}.off',
                   f'nulpos({root}.buf, {root}.off) == nulpos({var}.buf, {var}.off)',
                   f'u8ok(cstr_bytes({root})) == u8ok(cstr_bytes({var}))',
                   f'u8ok(cstr_bytes({root})) ==> ({acc[1]}) + u8split(cstr_bytes({root})) =~= {acc[0]} + u8split(cstr_bytes({var}))',
                   f'sok({acc[1]}) ==> sok({acc[0]})'],
              ens=[f'cstr_bytes({var}).len() == 0'], dec=f'{var}.buf.len() - {var}.off',
              head=f'lemma_cstr_step({var});')
    return C(qual, sig, params=params, throws=True, requires=([] if nocstr else [f'cstr_ok({var})']) + list(requires), ensures=ensures, loops=[lp])


EXC2 = '!(exc is None) ==> (exc is InvalidArgument || exc is RuntimeError)'
def seq_of(n, ch):
    return f'Seq::new({n} as nat, |i: int| {ch})'


LT = lambda a, b: f'seq_lt({a}.data_, {b}.data_, |_a: XChar, _b: XChar| (bytes_cmp(_a.data_, _b.data_) < 0))'
U = 'u8split(cstr_bytes({}))'.format
NOCHANGE = '!(exc is None) ==> this1 == this'
FILL = lambda ch, n: [loop(inv=[f'i <= count', f'this.data_.len() == _base.len() + i', f'this.data_ =~= _base + {seq_of("i", ch)}'],
                           dec='count - i', before='let ghost _base = this.data_;')]
PRED = 'pred'
STRING = [
    DECODE,
    decode_fn('String::String', 'void (const char *)', 'str', ['str'], ('this.data_', 'Seq::<XChar>::empty()'), [
        'exc is None <==> u8ok(cstr_bytes(str))', EXC2,
        'exc is None ==> r.data_ =~= u8split(cstr_bytes(str)) && sok(r.data_)']),
    decode_fn('String::String', 'void (const BasicString &)', 'cstr', ['str'], ('this.data_', 'Seq::<XChar>::empty()'), [
        'exc is None <==> u8ok(upto_nul(str))', EXC2,
        'exc is None ==> r.data_ =~= u8split(upto_nul(str)) && sok(r.data_)'], rootvar='lit(str)', nocstr=True),
    C('String::String', 'void (const std::vector<CharType> &)', params=['chars'], ensures=['r.data_ =~= chars']),
    C('String::String', 'void (const SizeType, const char)', params=['count', 'ch'], throws=True, ensures=[
        'ch < 0x80 ==> exc is None', 'ch >= 0x80 && count > 0 ==> exc is InvalidArgument',
        f'exc is None ==> r.data_ =~= {seq_of("count", "ch1(ch)")}'],
      loops=[loop(inv=['i <= count', 'i > 0 ==> ch < 0x80', f'this.data_ =~= {seq_of("i", "ch1(ch)")}'], dec='count - i',
                  end='assert(this.data_[this.data_.len() - 1].data_ =~= seq![ch]);')]),
    C('String::String', 'void (const SizeType, const Char &)', params=['count', 'ch'], ensures=[f'r.data_ =~= {seq_of("count", "ch")}'],
      loops=[loop(inv=['i <= count', f'this.data_ =~= {seq_of("i", "ch")}'], dec='count - i')]),
    C('String::String', 'void (const String &)', params=['other'], ensures=['r.data_ =~= other.data_']),
    C('String::String', 'void (String &&) noexcept', params=['other'], ensures=['r.data_ =~= other.data_']),
    C('String::operator=', 'String &(const String &)', params=['other'], alias=[('this', 'other')], ensures=['this1.data_ =~= other.data_']),
    C('String::operator=', 'String &(String &&) noexcept', params=['other'], ensures=['this1.data_ =~= other.data_']),
    C('String::size', pure='(this.data_.len() as u64)', ensures=['this.data_.len() <= 0x0200_0000_0000_0000']),
    C('String::Length', pure='(this.data_.len() as u64)', ensures=['this.data_.len() <= 0x0200_0000_0000_0000']),
    C('String::operator[]', 'const CharType &(const SizeType) const', params=['index'], requires='index < this.data_.len()', pure='this.data_[index as int]'),
    C('String::At', 'const CharType &(const SizeType) const', params=['index'], throws=True, ensures=[
        'index < this.data_.len() <==> exc is None', '!(exc is None) ==> exc is OutOfRange',
        'exc is None ==> r == this.data_[index as int]']),
    C('String::operator[]', 'CharType &(const SizeType)', params=['index'], requires='index < this.data_.len()', byref=True,
      ensures=['r == this.data_[index as int]', 'this1 == this']),
    C('String::At', 'CharType &(const SizeType)', params=['index'], throws=True, byref=True, ensures=[
        'index < this.data_.len() <==> exc is None', '!(exc is None) ==> exc is OutOfRange', 'this1 == this',
        'exc is None ==> r == this.data_[index as int]']),
    C('String::operator+=', params=['str'], ensures=['this1.data_ =~= this.data_ + str.data_'], alias=[('this', 'str')]),
    C('String::operator+', params=['str'], ensures=['r.data_ =~= this.data_ + str.data_'],
      loops=[loop(inv=['pos <= this.data_.len()', 'ret.len() == this.data_.len() + str.data_.len()',
                       'forall|k: int| 0 <= k < pos ==> ret[k] == #[trigger] this.data_[k]'], dec='this.data_.len() - pos'),
             loop(inv=['i <= str.data_.len()', 'pos == this.data_.len()', 'ret.len() == this.data_.len() + str.data_.len()',
                       'forall|k: int| 0 <= k < pos ==> ret[k] == #[trigger] this.data_[k]', 'forall|k: int| 0 <= k < i ==> ret[pos + k] == #[trigger] str.data_[k]'], dec='str.data_.len() - i',
                  after='assert forall|k: int| 0 <= k < ret.len() implies ret[k] == (this.data_ + str.data_)[k] by { if k >= pos { assert(ret[pos + (k - pos)] == str.data_[k - pos]); } else { assert(ret[k] == this.data_[k]); } }')]),
    C('String::PushBack', params=['c'], ensures=['this1.data_ =~= this.data_.push(c)']),
    decode_fn('String::Append', 'void (const char *)', 'cstr', ['cstr'], ('this.data_', 'this0.data_'), [
        'exc is None <==> u8ok(cstr_bytes(cstr))', EXC2, f'exc is None ==> this1.data_ =~= this.data_ + {U("cstr")}',
        'sok(this.data_) ==> sok(this1.data_)']),
    C('String::Append', 'void (const SizeType, const char *)', params=['count', 'pattern'], requires='cstr_ok(pattern)', throws=True, ensures=[
        'exc is None <==> count == 0 || char_valid(cstr_bytes(pattern))', '!(exc is None) ==> exc is InvalidArgument && this1 == this',
        f'exc is None ==> this1.data_ =~= this.data_ + {seq_of("count", "XChar { data_: cstr_bytes(pattern) }")}'],
      loops=[loop(inv=['i <= count', 'i > 0 ==> char_valid(cstr_bytes(pattern))',
                       f'this.data_ =~= this0.data_ + {seq_of("i", "XChar { data_: cstr_bytes(pattern) }")}'], dec='count - i')]),
    C('String::Append', 'void (const SizeType, const CharType &)', params=['count', 'pattern'],
      ensures=[f'this1.data_ =~= this.data_ + {seq_of("count", "pattern")}'],
      loops=[loop(inv=['i <= count', f'this.data_ =~= this0.data_ + {seq_of("i", "pattern")}'], dec='count - i')]),
    C('String::Clear', ensures=['this1.data_.len() == 0']),
    *[C(f'String::operator{op}', 'bool (const char *) const', params=['other'], requires='cstr_ok(other)',
        pure=f'(bytes_cmp(flat(this.data_), cstr_bytes(other)) {op} 0)') for op in ('>', '<', '>=', '<=')],
    C('String::operator==', 'bool (const char *) const', params=['other'], requires='cstr_ok(other)', pure='(flat(this.data_) =~= cstr_bytes(other))'),
    C('String::operator!=', 'bool (const char *) const', params=['other'], requires='cstr_ok(other)', pure='!(flat(this.data_) =~= cstr_bytes(other))'),
    C('String::operator<', 'bool (const String &) const', params=['other'], pure=LT('this', 'other')),
    C('String::operator>', 'bool (const String &) const', params=['other'], pure=LT('other', 'this')),
    C('String::operator<=', 'bool (const String &) const', params=['other'], pure='!' + LT('other', 'this')),
    C('String::operator>=', 'bool (const String &) const', params=['other'], pure='!' + LT('this', 'other')),
    C('String::operator==', 'bool (const String &) const', params=['other'], pure='(this =~= other)', structural=True),
    C('String::operator!=', 'bool (const String &) const', params=['other'], pure='!(this =~= other)'),
    C('String::Substring', params=['pos', 'count'], throws=True, ensures=[
        'exc is None <==> pos <= this.data_.len()', '!(exc is None) ==> exc is OutOfRange',
        'exc is None ==> r.data_ =~= this.data_.subrange(pos as int, if count < this.data_.len() - pos { pos + count } else { this.data_.len() as int })']),
    C('String::ByteCount', requires='nbytes(this.data_) < 0x1_0000_0000_0000_0000', ensures=['r == nbytes(this.data_)'],
      loops=[loop(inv=['count == nbytes(this.data_.take(_i))'], before='assert(nbytes(this.data_.take(0)) == 0);',
                  start='lemma_nbytes_step(this.data_, _i); lemma_nbytes_le(this.data_, _i + 1);',
                  after='assert(this.data_.take(this.data_.len() as int) =~= this.data_);')]),
    C('String::IsEmpty', pure='(this.data_.len() == 0)'),
    C('String::NotEmpty', pure='(this.data_.len() != 0)'),
    C('String::data', pure='this.data_'),
    C('String::str', ensures=['r =~= flat(this.data_)'],
      loops=[loop(inv=['oss =~= flat(this.data_.take(_i))'], before='assert(flat(this.data_.take(0)) =~= Seq::<u8>::empty());',
                  start='lemma_nbytes_step(this.data_, _i);',
                  after='assert(this.data_.take(this.data_.len() as int) =~= this.data_);')]),
    decode_fn('String::Insert', 'void (const SizeType, const char *)', 'cstr', ['pos', 'cstr'], ('temp_data', 'Seq::<XChar>::empty()'), [
        'exc is None <==> pos <= this.data_.len() && u8ok(cstr_bytes(cstr))',
        'pos > this.data_.len() ==> exc is OutOfRange', '!(exc is None) ==> this1 == this',
        f'exc is None ==> this1.data_ =~= this.data_.subrange(0, pos as int) + {U("cstr")} + this.data_.skip(pos as int)']),
    C('String::Insert', 'void (const SizeType, const String &)', params=['pos', 'str'], throws=True, alias=[('this', 'str')], ensures=[
        'exc is None <==> pos <= this.data_.len()', '!(exc is None) ==> exc is OutOfRange && this1 == this',
        'exc is None ==> this1.data_ =~= this.data_.subrange(0, pos as int) + str.data_ + this.data_.skip(pos as int)']),
    C('String::Insert', 'void (const SizeType, const SizeType, const CharType &)', params=['pos', 'count', 'ch'], throws=True, ensures=[
        'exc is None <==> pos <= this.data_.len()', '!(exc is None) ==> exc is OutOfRange && this1 == this',
        f'exc is None ==> this1.data_ =~= this.data_.subrange(0, pos as int) + {seq_of("count", "ch")} + this.data_.skip(pos as int)']),
    C('String::Empty', ensures=['r.data_.len() == 0']),
    C('CaitlynOps::operator<<', 'std::ostream &(std::ostream &, const Caitlyn::String &)', params=['os', 'str'],
      ensures=['os1 =~= os + flat(str.data_)']),
    C('CaitlynOps::operator""_str', params=['str', '_n'], requires='cstr_ok(str)', throws=True, ensures=[
        'exc is None <==> u8ok(cstr_bytes(str))', EXC2, f'exc is None ==> r.data_ =~= {U("str")} && sok(r.data_)']),
]
FIND_ENS = ["""({ let e = (r == 0xffff_ffff_ffff_ffff);
   (e ==> (pos > this.data_.len() || (forall|k: int| pos <= k ==> !#[trigger] occurs_at(this.data_, substr.data_, k))))
   && (!e ==> pos <= r && occurs_at(this.data_, substr.data_, r as int)
       && (forall|k: int| pos <= k < r ==> !#[trigger] occurs_at(this.data_, substr.data_, k))) })"""]
SEARCH = [
    C('String::StartsWith', params=['prefix'], ensures=['r == occurs_at(this.data_, prefix.data_, 0)']),
    C('String::EndsWith', params=['suffix'], ensures=['r == occurs_at(this.data_, suffix.data_, this.data_.len() - suffix.data_.len())']),
    C('String::Contains', params=['substring'], ensures=['r <==> (exists|k: int| #[trigger] occurs_at(this.data_, substring.data_, k))'],
      entry='lemma_occurs_ends(this.data_, substring.data_);'),
    C('String::Find', params=['substr', 'pos'], ensures=FIND_ENS,),
    C('String::ReverseFind', params=['substr', 'pos'], ensures=["""({ let e = (r == 0xffff_ffff_ffff_ffff);
   (e ==> (forall|k: int| k <= pos ==> !#[trigger] occurs_at(this.data_, substr.data_, k)))
   && (!e ==> r <= pos && occurs_at(this.data_, substr.data_, r as int)
       && (forall|k: int| r < k <= pos ==> !#[trigger] occurs_at(this.data_, substr.data_, k))) })"""],),
    *[C('String::' + n, params=['pred', 'pos'], ensures=[f'''({{ let e = (r == 0xffff_ffff_ffff_ffff);
   (e ==> pos > this.data_.len() || (forall|k: int| pos <= k < this.data_.len() ==> {no}pred(#[trigger] this.data_[k])))
   && (!e ==> pos <= r < this.data_.len() && {yes}pred(this.data_[r as int]) && (forall|k: int| pos <= k < r ==> {no}pred(#[trigger] this.data_[k]))) }})'''])
      for n, yes, no in (('FindIf', '', '!'), ('FindIfNot', '!', ''))],
]
# a use of each member template with a function pointer: any deterministic predicate
INST = '''namespace Caitlyn { inline void vp_inst_find(const String& s, bool (*p)(const Char&)) { s.FindIf(p, 0); s.FindIfNot(p, 0); } }
'''
# iterators: where they start, and over what (a specification of their own: elsewhere the calls are followed into the bodies)
ITER = [C(f'String::{p}{n}', f'String::{k}{t} (){q}', ensures=[f'r.s =~= this.data_{".reverse()" if p[-1:] == "r" else ""}', f'r.i == {"this.data_.len()" if n == "end" else "0"}', 'this1 == this'])
        for p, k, q in (('', '', ''), ('', 'Const', ' const'), ('c', 'Const', ' const'), ('r', '', ''), ('r', 'Const', ' const'), ('cr', 'Const', ' const'))
        for t in (('ReverseIterator',) if p[-1:] == 'r' else ('Iterator',)) for n in ('begin', 'end')]
