"""String::Format"""
from contract import Contract as C, loop
F = 'String::Formatter::'
KEEP = lambda *fs: [f'spec1.{f} == spec.{f}' for f in fs]
FIELDS = ['align', 'width', 'fill', 'repr', 'type_k', 'precision']
SAME = lambda *ch: KEEP(*[f for f in FIELDS if f not in ch])
INTS = ['short', 'int', 'long', 'long long', 'unsigned short', 'unsigned int', 'unsigned long', 'unsigned long long']
# what an argument is: its C++ parameter type and the text it stands for
KINDS = {'s': ('const String &', '{}'), 'i': ('const int &', 'int_arg({} as int)'), 'b': ('const bool &', 'bool_arg({})')}
KS = ['', 's', 'ss', 'sss', 'ssss', 'i', 'si', 'ib']
B1 = 'broadcast use lemma_lit1, lemma_split1, lemma_ok1;'
NUM = lambda call, field: dict(requires='sok(config.data_) && pos <= config.data_.len()', throws=True, ensures=[
    f'exc is None <==> ({call}).ok', f'exc is None ==> spec1.{field} == ({call}).val && pos1 == ({call}).pos', f'exc is None ==> pos1 <= config.data_.len()', *SAME(field)])
def PREC(*a):
    d = NUM(*a)
    return {**d, 'requires': d['requires'] + ' && spec.precision == -1'}
def digits_loop():
    return loop(inv=['pos <= config.data_.len()', 'run_end(config.data_, pos as int) == run_end(config.data_, _p)'],
                before='let ghost _p = pos as int; lemma_run_end(config.data_, _p);', start='assert(char_ok(config.data_[pos as int].data_)); lemma_run_end(config.data_, pos as int);', dec='config.data_.len() - pos')
FMT = [
    C(F + 'SetFill', params=['config', 'spec', 'pos'], requires='pos < config.data_.len() && pos < 0xffff_ffff_ffff_ffff', ensures=['spec1.fill == config.data_[pos as int]', 'pos1 == pos + 1', *SAME('fill')]),
    C(F + 'ParseAlignment', params=['config', 'spec', 'pos'], requires='pos <= config.data_.len() && spec.fill == ch1(32) && spec.align == 0', entry=B1, throws=True, ensures=[
        'exc is None', 'spec1.fill == f_align(config.data_, pos as int).fill', 'spec1.align == f_align(config.data_, pos as int).side',
        'pos1 == f_align(config.data_, pos as int).pos', 'pos1 <= config.data_.len()', *SAME('fill', 'align')]),
    C(F + 'ParseWidth', params=['config', 'spec', 'pos'], loops=[digits_loop()], entry=B1 + 'lemma_num(config.data_, pos as int);', **NUM('f_num(config.data_, pos as int, spec.width as int, 0xffff_ffff_ffff_ffff)', 'width')),
    C(F + 'ParsePrecision', params=['config', 'spec', 'pos'], loops=[digits_loop()], entry=B1 + 'lemma_num(config.data_, pos + 1);', **PREC('f_prec(config.data_, pos as int)', 'precision')),
    C(F + 'ParseValueType', params=['config', 'spec', 'pos'], requires='pos <= config.data_.len()', entry=B1, throws=True, ensures=[
        'exc is None', 'spec1.type_k == (if f_type(config.data_, pos as int) != 0 { f_type(config.data_, pos as int) } else if at1(config.data_, pos as int, 115) { 0 } else { spec.type_k as int })', *SAME('type_k')]),
    C(F + 'MakeSpacifier', params=['config'], requires='sok(config.data_) && config.data_.len() > 0', entry=B1 + 'reveal(f_layout); lemma_align_ok(config.data_, 1);', throws=True, ensures=[
        'exc is None <==> f_layout(config.data_).ok',
        'exc is None ==> lay(r) == f_layout(config.data_)', 'exc is None ==> 0 <= r.align <= 2',
        'exc is None ==> char_ok(r.fill.data_)']),
    *[C(F + n, params=['value', 'spec'], requires='0 <= spec.align <= 2', throws=True, ensures=['exc is None', 'value1.data_ =~= padded(value.data_, spec.fill, spec.align as int, spec.width as int)'])
      for n in ('ProcessAlignment', 'ProcessSpecifier')],
    *[C(F + n, params=['value', 'spec'], requires='0 <= spec.align <= 2', throws=True, ensures=['exc is None', 'r.data_ =~= padded(value.data_, spec.fill, spec.align as int, spec.width as int)'])
      for n in ('ProcessString', 'ProcessIntegral')],
    C(F + 'ProcessFloating', params=['value', 'spec'], rlimit=80, requires='0 <= spec.align <= 2 && sok(value.data_)', throws=True, entry=B1 + 'lemma_fixed_clean(value.data_, spec.precision as int); lemma_text_roundtrip(fixed(value.data_, spec.precision as int)); lemma_nulpos_clean(fixed(value.data_, spec.precision as int));',
      ensures=['exc is None', 'r.data_ =~= padded(u8split(fixed(value.data_, spec.precision as int)), spec.fill, spec.align as int, spec.width as int)', 'char_ok(spec.fill.data_) ==> sok(r.data_)'],
      calls={'Find': dict(after='lemma_find1(value.data_, arg_substr.data_, 46, 0, ret_); lemma_flat_clean(value.data_); lemma_chfind(value.data_, 46, 0); if spec.precision <= 0 { lemma_fixed_none(value.data_, spec.precision as int); } if chfind(value.data_, 46, 0) < value.data_.len() { lemma_run_end(value.data_, chfind(value.data_, 46, 0) + 1); }'),
             'String#1': dict(before='assert(arg_str =~= fixed(value.data_, spec.precision as int));')},
      loops=[loop(inv=['dot_index + 1 <= index <= limit', 'index <= run_end(value.data_, dot_index + 1)', 'run_end(value.data_, index as int) == run_end(value.data_, dot_index + 1)',
                       'oss =~= flat(value.data_.subrange(0, dot_index + 1)) + flat(value.data_.subrange(dot_index + 1, index as int))'], dec='limit - index',
                  start='let ghost _i = index as int; lemma_run_end(value.data_, _i);', end='lemma_flat_push(value.data_.subrange(dot_index + 1, _i), value.data_[_i]); assert(value.data_.subrange(dot_index + 1, _i).push(value.data_[_i]) =~= value.data_.subrange(dot_index + 1, _i + 1));'),
             loop(inv=['_e <= index <= limit', 'oss =~= _b + zeros(index - _e)'], before='let ghost _b = oss; let ghost _e = index as int;', dec='limit - index', end='lemma_zeros(index - _e - 1);', after='lemma_fixed_dot(value.data_, spec.precision as int, _e); assert(oss =~= fixed(value.data_, spec.precision as int));'),
             loop(inv=['i <= spec.precision', 'oss =~= _b + zeros(i as int)'], before='let ghost _b = oss;', dec='spec.precision - i', end='lemma_zeros(i - 1);', after='lemma_fixed_nodot(value.data_, spec.precision as int); assert(oss =~= fixed(value.data_, spec.precision as int));')]),
    C(F + 'Process', params=['value', 'spec'], requires='0 <= spec.align <= 2 && sok(value.data_)', entry='reveal(laid);', throws=True, ensures=['exc is None', 'r.data_ =~= laid(value.data_, lay(spec))', 'char_ok(spec.fill.data_) ==> sok(r.data_)']),
] + [C(F + 'ToString', f'Required<IsInteger<{t}>(), String> (const {t} &)', params=['value'], throws=True, entry='lemma_int_chars(value as int);',
         ensures=['exc is None', 'r == int_arg(value as int)', 'sok(r.data_)']) for t in INTS
] + [C(F + 'ToString', 'Required<IsBoolean<bool>(), String> (const bool &)', params=['value'], throws=True, entry='lemma_bool_chars(); assert(bool_text(value) == bool_text(value)); if value { assert(lit(bool_text(true)) == lit(seq![116u8, 114, 117, 101])); } else { assert(lit(bool_text(false)) == lit(seq![102u8, 97, 108, 115, 101])); }',
       ensures=['exc is None', 'r == bool_arg(value)', 'sok(r.data_)'])]


def format_contract(kinds):
    n = len(kinds)
    names = [f'a{i}' for i in range(n)]
    vals = [KINDS[k][1].format(a) for k, a in zip(kinds, names)]
    seq = 'seq![' + ', '.join(vals) + ']' if n else 'Seq::<XString>::empty()'
    return C('String::Format', 'String (' + ', '.join(['const String &'] + [KINDS[k][0] for k in kinds]) + ')', params=['formatter'] + names, throws=True,
      requires=' && '.join(['sok(formatter.data_)'] + [f'sok({a}.data_)' for k, a in zip(kinds, names) if k == 's']),
      ensures=[f'exc is None <==> fmt(formatter.data_, {seq}, 0, 0).ok',
               f'exc is None ==> flat(r.data_) =~= fmt(formatter.data_, {seq}, 0, 0).text && r.data_ =~= u8split(fmt(formatter.data_, {seq}, 0, 0).text) && sok(r.data_)'],
      entry=B1, rlimit=80,
      loops=[loop(inv=['sofar(formatter.data_, _args, result, pos as int, auto_index as int)'],
                  before=f'let ghost _args = arguments; assert(_args =~= {seq}); lemma_start(formatter.data_, _args);',
                  start="""let ghost _r = result; let ghost _p = pos as int; let ghost _au = auto_index as int; lemma_chfind(formatter.data_, 125, _p); assert(char_ok(formatter.data_[_p].data_));
                     lemma_step(formatter.data_, _args, _r, _p, _au);""",
                  end='assert(step(formatter.data_, _args, _p, _au).ok); assert(result =~= _r + step(formatter.data_, _args, _p, _au).text);', after='lemma_nulpos_clean(result); lemma_text_roundtrip(result);', dec='formatter.data_.len() - pos'),
             loop(inv=['index_end <= spec.data_.len()', 'run_end(spec.data_, index_end as int) == run_end(spec.data_, 0)'], before='lemma_run_end(spec.data_, 0);',
                  start='assert(char_ok(spec.data_[index_end as int].data_)); lemma_run_end(spec.data_, index_end as int);', dec='spec.data_.len() - index_end')],
      calls={'Find': dict(after='lemma_find1(formatter.data_, arg_substr.data_, 125, pos as int, ret_);')})


FMT += [format_contract(k) for k in KS]
INST = 'namespace Caitlyn { inline void vp_inst_format(const String& f, const String& s, const int& i, const bool& b) { ' + \
    ''.join('String::Format(' + ', '.join(['f', *k]) + '); ' for k in KS) + '} template <class T> void vp_ts(T t) { String::Format("", t); } inline void vp_inst_ts() { ' + ''.join(f'vp_ts<{t}>(({t})0); ' for t in INTS) + '} }\n'
