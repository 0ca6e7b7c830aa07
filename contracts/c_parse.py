"""Json: the parser"""
from xlate import seq_lit
from contract import Contract as C, loop
import c_json
JP = 'Json::__Detail::JsonParser'
INST = c_json.INST.rstrip()[:-1] + '''inline void vp_parse(JsonDocument& o, const String& s) { JsonDocument u(s); o = s; o.Parse(s); Json::MakeDocument(s); o.GetErrorString(); Json::__Detail::JsonParser::Parse(s).GetData(); }
inline void vp_parse2(JsonDocument& o, const std::ifstream& s, std::istream& in) { JsonDocument u(s); o = s; o.Parse(s); Json::MakeDocument(s); in >> o; }
}
'''


def names(lib):
    c_json.names(lib)
    lib.fieldnames[JP] = ['data_', 'error_', 'json_', 'position_', 'errorPosition_']


B1 = 'broadcast use lemma_lit1, lemma_is1b; assert(wf(jnull()));'
OK = ['sok(this.json_.data_)', 'this.position_ <= this.json_.data_.len()', 'this.json_.data_.len() < 0x8000_0000_0000_0000', 'this.error_ == 0', 'wf(this.data_)']
FRAME = ['this1.json_ == this.json_', 'this1.data_ == this.data_', 'this1.position_ <= this.json_.data_.len()']
T, P = 'this.json_.data_', '(this.position_ as int)'


def result(e):
    return FRAME + [f'wf(r)', f'match {e} {{ None => this1.error_ != 0 && r == jnull(), Some((v, n)) => this1.error_ == 0 && r =~~= v && this1.position_ == n && n > this.position_ }}']


def jp(name, *a, **k):
    return C(f'{JP}::{name}', *a, **k)


QUIET = ['this1.data_ == this.data_', 'this1.json_ == this.json_']
LEN = f'{T}.len() - this.position_'
STEADY = ['this.json_ == this0.json_ && this.data_ == this0.data_ && this.error_ == 0', f'this0.position_ < this.position_ <= {T}.len()', f'ws({T}, {P}) == this.position_']
PARSER = [
    jp('HasError', ensures=['r == (this.error_ != 0)']),
    jp('GetError', ensures=['r == this.error_']),
    jp('GetData', requires=['wf(this.data_)'], ensures=['r =~~= this.data_', 'wf(r)']),
    jp('SetError', params=['error'], ensures=['this1.error_ == error', 'this1.position_ == this.position_', 'this1.errorPosition_ == this.errorPosition_'] + QUIET),
    jp('SetErrorPosition', params=['position'], ensures=['this1.error_ == this.error_', 'this1.position_ == this.position_', 'this1.errorPosition_ == position'] + QUIET),
    jp('Next', params=['count'], requires=['this.position_ + count <= u64::MAX'], ensures=['this1.error_ == this.error_', 'this1.position_ == this.position_ + count', 'this1.errorPosition_ == this.errorPosition_'] + QUIET),
    jp('IsNext', params=['c'], ensures=[f'r == (this.position_ < {T}.len() && {T}[{P}] == c)']),
    jp('SkipSpace', requires=OK[:3], ensures=['this1.error_ == this.error_', 'this1.errorPosition_ == this.errorPosition_', f'this1.position_ == ws({T}, {P})', f'ws({T}, this1.position_ as int) == this1.position_', 'this.position_ <= this1.position_'] + FRAME,
       entry=f'lemma_ws({T}, {P});', loops=[loop(inv=['this.json_ == this0.json_ && this.data_ == this0.data_ && this.error_ == this0.error_ && this.errorPosition_ == this0.errorPosition_', f'this0.position_ <= this.position_ <= {T}.len()',
                                       f'ws({T}, {P}) == ws({T}, this0.position_ as int)'], dec=LEN, start=f'assert(char_ok({T}[{P}].data_));')]),
    jp('ParseValue', requires=OK, ensures=result(f'jval({T}, {P})'), dec=f'{LEN}, 1int', entry=B1 + f'lemma_jval_def({T}, {P}); lemma_ws({T}, {P}); assert(ws({T}, {P}) < {T}.len() ==> char_ok({T}[ws({T}, {P})].data_)); lemma_ws({T}, ws({T}, {P}) + 1);'),
    jp('ParseObject', requires=OK + [f'at1({T}, {P}, 123)'], ensures=result(f'jobj({T}, ws({T}, this.position_ + 1), Seq::empty())'), dec=f'{LEN}, 0int',
       entry=B1 + f'lemma_ws({T}, this.position_ + 1); assert(wf(jfresh(1))); lemma_jval_ws({T});', loops=[loop(
        inv=STEADY + ['wf(result) && result.type_ == 1', f'jobj({T}, {P}, members(result)) == jobj({T}, ws({T}, this0.position_ + 1), Seq::empty())'], dec=LEN,
        start=f'lemma_jobj_def({T}, {P}, members(result)); lemma_ws({T}, {P}); lemma_jval_ws({T}); let ghost _o = result; let ghost _i = {P};', after=f'lemma_jobj_def({T}, {P}, members(result));')]),
    jp('ParseArray', requires=OK + [f'at1({T}, {P}, 91)'], ensures=result(f'jarr({T}, ws({T}, this.position_ + 1), Seq::empty())'), dec=f'{LEN}, 0int',
       entry=B1 + f'lemma_ws({T}, this.position_ + 1); assert(wf(jfresh(2)));', loops=[loop(
        inv=STEADY + ['wf(result) && result.type_ == 2', f'jarr({T}, {P}, elements(result)) == jarr({T}, ws({T}, this0.position_ + 1), Seq::empty())'], dec=LEN,
        start=f'lemma_jarr_def({T}, {P}, elements(result)); lemma_ws({T}, {P});', after=f'lemma_jarr_def({T}, {P}, elements(result));')]),
    jp('ParseString', requires=OK + [f'at1({T}, {P}, 34)'], ensures=result(f'jtext({T}, this.position_ + 1)'), entry=B1 + 'lemma_ok1(34); lemma_ok1(92); lemma_ok1(47); lemma_ok1(8); lemma_ok1(12); lemma_ok1(10); lemma_ok1(13); lemma_ok1(9);',
       loops=[loop(inv=STEADY[:-1] + ['clean(escaped_stream)', f'jstr({T}, {P}, escaped_stream) == jstr({T}, this0.position_ + 1, Seq::empty())'], dec=LEN,
                   start=f'let ghost _i = this.position_ as int; let ghost _o = escaped_stream; assert(char_ok({T}[_i].data_)); assert(_i + 1 < {T}.len() ==> char_ok({T}[_i + 1].data_)); lemma_u8_one({T}[_i].data_); lemma_hex4_range({T}, _i + 2); lemma_hex4_range({T}, _i + 8);',
                   end=f'lemma_jstr_clean({T}, _i, _o); if at1({T}, _i, 92) {{ assert(at1({T}, _i + 1, 117) ==> jesc1({T}[_i + 1]) == -1); if jesc1({T}[_i + 1]) >= 0 {{ assert(this.position_ == _i + 2); assert(escaped_stream =~= _o + seq![jesc1({T}[_i + 1]) as u8]); }} else {{ assert(at1({T}, _i + 1, 117)); assert(hex4({T}, _i + 2)); let u = hex4_val({T}, _i + 2);  if is_high(u) {{ assert(at1({T}, _i + 6, 92)); assert(at1({T}, _i + 7, 117)); assert(hex4({T}, _i + 8)); assert(is_low(hex4_val({T}, _i + 8))); assert(this.position_ == _i + 12); }} else {{ assert(this.position_ == _i + 6); }} let v = (if is_high(u) {{ 0x10000 + (u - 0xD800) * 0x400 + (hex4_val({T}, _i + 8) - 0xDC00) }} else {{ u }}) as u32; lemma_enc_clean(v); lemma_nulpos_clean(utf8_enc(v)); assert(escaped_stream =~= _o + jesc({T}, _i + 1)->Some_0.0); }} assert(jesc({T}, _i + 1) is Some); assert(jesc({T}, _i + 1)->Some_0.1 == this.position_); assert(escaped_stream =~= _o + jesc({T}, _i + 1)->Some_0.0); }} else {{ assert(escaped_stream =~= _o + upto_nul({T}[_i].data_)); assert(this.position_ == _i + 1); }}', after='lemma_text_roundtrip(escaped_stream); lemma_nulpos_clean(escaped_stream);')]),
    jp('ParseCodeUnit', requires=OK + [f'this.position_ < {T}.len()'], throws=False, ensures=QUIET + [
        'this1.error_ == this.error_', 'this1.errorPosition_ == this.errorPosition_', f'hex4({T}, this.position_ + 1) ==> r == hex4_val({T}, this.position_ + 1) && this1.position_ == this.position_ + 4',
        f'!hex4({T}, this.position_ + 1) ==> r == 0 && this1.position_ == this.position_'], calls={'str': dict(after=f'lemma_hex4({T}, this.position_ + 1, ret_);')}),
    jp('ParseBoolean', requires=OK + [f'this.position_ < {T}.len()'], ensures=result(f'jword({T}, {P})'), entry=f'lemma_lits(); if word({T}, {P}, w_true()) {{ lemma_word({T}, {P}, w_true()); }} if word({T}, {P}, w_false()) {{ lemma_word({T}, {P}, w_false()); }}'),
    jp('ParseNull', requires=OK + [f'this.position_ < {T}.len()'], ensures=result(f'jnullword({T}, {P})'), entry=f'lemma_lits(); if word({T}, {P}, w_null()) {{ lemma_word({T}, {P}, w_null()); }}'),
    jp('SkipDigits', params=['text', 'index'], requires=['index <= text.len()'], ensures=['r == digs(text, index as int)', 'index <= r <= text.len()'], entry='lemma_digs(text, index as int);',
       loops=[loop(inv=['index0 <= index <= text.len()', 'digs(text, index as int) == digs(text, index0 as int)'], dec='text.len() - index')]),
    jp('IsNumeral', params=['text'], ensures=['r == is_numeral(text)']),
    jp('ParseNumber', requires=OK + [f'this.position_ < {T}.len()', f'numchar({T}[{P}])'], ensures=result(f'jnum({T}, {P})'), entry=B1 + f'broadcast use lemma_split1, lemma_ok1; lemma_numend({T}, {P});',
       loops=[loop(inv=['this == this0', 'result == jnull() && wf(result)', f'this.position_ <= end_number <= {T}.len()', f'numend({T}, end_number as int) == numend({T}, {P})'], dec=f'{T}.len() - end_number', start=f'assert(char_ok({T}[end_number as int].data_));')],
       calls={'Find': dict(after='lemma_find_one(arg_this.data_, arg_substr.data_, ret_); if ret_ != 0xffff_ffff_ffff_ffff { assert(realmark(arg_this.data_, ret_ as int)); }'), 'IsNumeral': dict(after='if ret_ { lemma_numeral_sto(arg_text); }')}),
    jp('Parse', params=['json'], requires=['sok(json.data_)'], ensures=[
        'wf(r.data_)', 'match jdoc(json.data_) { None => r.error_ != 0, Some(v) => r.error_ == 0 && r.data_ =~~= v }'], entry=B1,
       calls={'FindFirstNonSpace': dict(after='lemma_ws_to(arg_str.data_, 0, ret_ as int);'), 'FindLastNonSpace': dict(after='lemma_doc_last(arg_str.data_, ret_ as int); lemma_tail(arg_str.data_, ret_ as int);')}),
]


def doc(name, *a, **k):
    return C(f'{c_json.DOC}::{name}', *a, **k)


TEXT = ['sok({}.data_)']
REQ = lambda n: [q.format(n) for q in TEXT]
RES = lambda x, n: [f'wf({x}.root_)', f'match jdoc({n}.data_) {{ None => {x}.error_ != 0 && {x}.root_ == jnull(), Some(v) => {x}.error_ == 0 && {x}.root_ =~~= v }}']
DOCP = [
    doc('Parse', 'void (const String &)', params=['value'], requires=['wf(this.root_)'] + REQ('value'), ensures=RES('this1', 'value')),
    doc('JsonDocument', 'void (const String &)', params=['value'], requires=REQ('value'), ensures=RES('r', 'value')),
    doc('operator=', 'JsonDocument &(const String &)', params=['value'], requires=['wf(this.root_)'] + REQ('value'), ensures=RES('this1', 'value')),
    C('Json::MakeDocument', 'JsonDocument (const String &)', params=['value'], requires=REQ('value'), ensures=RES('r', 'value')),
]
NOERR = seq_lit(list(b'No error.'))
DOCP += [
    C('Json::GetErrorString', params=['error'], ensures=['cstr_ok(r) && r.off == 0 && r.buf.len() > 0', 'forall|i: int| 0 <= i < r.buf.len() ==> 0 < #[trigger] r.buf[i] < 0x80', f'error == 0 <==> r.buf =~= {NOERR}']),
    doc('GetErrorString', entry='broadcast use lemma_plain_cstr;', ensures=[f'this.error_ == 0 <==> flat(r.data_) =~= {NOERR}', 'r.data_.len() > 0 && sok(r.data_)'], throws=True),
]
# the text left in a stream
REST = {'stream': 'fs_rest(fs, {})', 'is': '{}'}


def sres(x, text):
    t = f'u8split(upto_nul({text}))'
    return [f'exc is None <==> u8ok(upto_nul({text}))', f'exc is None ==> wf({x}.root_) && (match jdoc({t}) {{ None => {x}.error_ != 0 && {x}.root_ == jnull(), Some(v) => {x}.error_ == 0 && {x}.root_ =~~= v }})']


IFS = 'const std::ifstream &'
FSG = [('fs', 'FS')]
OLD = ['!(exc is None) ==> this1 == this']
B = 'lemma_split_ok(upto_nul({}));'
DOCP += [
    doc('Parse', f'void ({IFS})', params=['stream'], globals=FSG, throws=True, requires=['wf(this.root_)'], ensures=sres('this1', 'fs_rest(fs, stream)') + OLD),
    doc('JsonDocument', f'void ({IFS})', params=['stream'], globals=FSG, throws=True, ensures=sres('r', 'fs_rest(fs, stream)')),
    doc('operator=', f'JsonDocument &({IFS})', params=['stream'], globals=FSG, throws=True, requires=['wf(this.root_)'], ensures=sres('this1', 'fs_rest(fs, stream)') + OLD),
    C('Json::MakeDocument', f'JsonDocument ({IFS})', params=['stream'], globals=FSG, throws=True, ensures=sres('r', 'fs_rest(fs, stream)')),
    C('CaitlynOps::operator>>', 'std::istream &(std::istream &, Caitlyn::JsonDocument &)', params=['in', 'value'], throws=True, requires=['wf(value.root_)'],
      ensures=sres('value1', 'in') + ['!(exc is None) ==> value1 == value', 'in1.len() == 0']),
]
