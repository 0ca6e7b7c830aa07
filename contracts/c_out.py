"""Json: the printer"""
from contract import Contract as C, loop
import c_json, c_parse
from c_json import jd
from c_format import B1
from c_parse import doc
INST = c_parse.INST.rstrip()[:-1] + '''inline void vp_out(const Json::__Detail::JsonData& c, const JsonDocument& d, std::ostream& os, bool m, SizeType n) { c.ToString(); c.ToString(m, n); d.ToString(); d.ToString(m, n); os << d; }
}
'''
names = c_parse.names
R = 'rend(this, mangling, base_indent as int, lvl(mangling, indent as int))'


def step(kind, v):
    other = f'flat(r{kind}(this, _i, mangling, base_indent as int, lvl(mangling, indent as int)))'
    return dict(inv=['this == this0 && mangling == mangling0 && base_indent == base_indent0 && indent == indent0', f'this.data_ is {v}_value', 'first == (_i == 0)', 'flat(indent_str.data_) == flat(blanks(true, indent as int))', f'oss + {other} =~= oss0 + flat(r{kind}_head(this, mangling)) + flat(r{kind}(this, 0, mangling, base_indent as int, lvl(mangling, indent as int)))'],
                dec=f'this.data_->{v}_value_0.len() - _i', start=f'lemma_r{kind}_flat(this, _i, mangling, base_indent as int, lvl(mangling, indent as int));', end='', after=f'lemma_r{kind}_flat(this, _i, mangling, base_indent as int, lvl(mangling, indent as int));')


RET = ' else '.join(f'if this.data_ is {v}_value {{ if mangling {{ assert(oss =~= oss0 + flat({R})); }} else {{ assert(oss =~= oss0 + flat({R})); }} }}\n' for v in ('object', 'array', 'floating', 'boolean', 'integral', 'string'))
OUT = [
    jd('WriteString', params=['oss', 'text'], requires=['sok(text.data_)'], ensures=['oss1 =~= oss + flat(quote(text.data_))'], entry=B1 + 'lemma_quote_flat(text.data_);', loops=[loop(
        inv=['text == text0', 'oss + flat(quoted(text.data_, _i)) =~= oss0 + seq![34u8] + flat(quoted(text.data_, 0))'], dec='text.data_.len() - _i', start='lemma_quoted_flat(text.data_, _i);', after='lemma_quoted_flat(text.data_, _i);')]),
    jd('MakeOutput', rlimit=200, params=['oss', 'mangling', 'base_indent', 'indent'], requires=['wf(this)', 'mangling ==> base_indent <= indent'], ensures=[f'oss1 =~= oss + flat({R})'], dec='this', ret=RET, locals=[('first', 'bool'), ('indent_str', 'XString')],
       entry=B1 + f'broadcast use lemma_blanks; lemma_lits(); lemma_rend_flat(this, mangling, base_indent as int, lvl(mangling, indent as int));', loops=[loop(**step('mem', 'object')), loop(**step('elm', 'array'))]),
    jd('ToString', params=['mangling', 'indent'], requires=['wf(this)'], entry='lemma_tidy_rend(this, mangling, indent as int, lvl(mangling, indent as int)); lemma_flat_split(rend(this, mangling, indent as int, lvl(mangling, indent as int)));', ensures=['r.data_ =~= rend(this, mangling, indent as int, lvl(mangling, indent as int))', 'sok(r.data_)', 'plain(this) ==> jval(r.data_, 0) == Some((this, r.data_.len() as int))'], ret='if plain(this) { theorem_back(this, mangling, indent as int, lvl(mangling, indent as int)); }'),
    doc('ToString', params=['mangling', 'indent'], requires=['wf(this.root_)'], ensures=['r.data_ =~= rend(this.root_, mangling, indent as int, lvl(mangling, indent as int))', 'sok(r.data_)', 'plain(this.root_) && this.root_.data_ is object_value ==> jdoc(r.data_) == Some(this.root_)'], ret='if plain(this.root_) { theorem_back(this.root_, mangling, indent as int, lvl(mangling, indent as int)); }'),
    C('CaitlynOps::operator<<', 'std::ostream &(std::ostream &, const Caitlyn::JsonDocument &)', params=['os', 'value'], requires=['wf(value.root_)'], ensures=['os1 =~= os + flat(rend(value.root_, false, 2, 0))']),
]
