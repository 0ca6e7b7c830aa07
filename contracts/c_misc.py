"""comparison helpers, substring search"""
from contract import Contract as C, loop

CMP = [C('cmp_' + n, params=['t', 'u'], pure=f'((t as int) {op} (u as int))')
       for n, op in (('eq', '=='), ('ne', '!='), ('less', '<'), ('greater', '>'), ('le', '<='), ('ge', '>='))]
INTS = ['signed char', 'short', 'int', 'long', 'long long', 'unsigned char', 'unsigned short', 'unsigned int', 'unsigned long', 'unsigned long long']
CMP_INST = 'namespace Caitlyn { template <class T, class U> void vp_cmp(T t, U u) { cmp_eq(t, u); cmp_ne(t, u); cmp_less(t, u); cmp_greater(t, u); cmp_le(t, u); cmp_ge(t, u); } inline void vp_inst_cmp() {\n' + \
    ''.join(f'vp_cmp<{a}, {b}>(({a})0, ({b})0);\n' for a in INTS for b in INTS) + '} }\n'

FALL = lambda t, top: f'lemma_kfall(pattern, {t}, i as int, jv(j), jv(failure[j as int]), {top});'
KMP = [
    C('__Detail::get_kmp_failure_vec', params=['pattern'], requires='pattern.len() < 0x4000_0000_0000_0000',
      ensures=['r.len() == pattern.len() + 1', 'borders(pattern, r, pattern.len() as int)'],
      loops=[loop(inv=['i <= pattern.len()', 'failure.len() == pattern.len() + 1', 'pattern_size == pattern.len()',
                       'borders(pattern, failure, i as int)', 'j == failure[i as int]'],
                  dec='pattern.len() - i',
                  head='',
                  start='''assert(border(pattern, i as int, jv(failure[i as int])));
                  assert forall|k: int| jv(j) < k <= i && 0 <= k implies !(#[trigger] pm(pattern, pattern, i as int, k) && k < i) by {}
                  if i > 0 { assert(kcand(pattern, pattern, i as int, jv(j), i - 1)); } else { assert(kcand(pattern, pattern, i as int, jv(j), i - 1)); }''',
                  end='''assert forall|q: int| 0 <= q <= i implies border(pattern, q, jv(#[trigger] failure[q])) by { if q < i { assert(border(pattern, q, jv(_f[q]))); } }'''),
             loop(inv=['kcand(pattern, pattern, i as int, jv(j), i - 1)', 'failure == _f', 'j == 0xffff_ffff_ffff_ffff || j < i'],
                  before='let ghost _f = failure;', dec='jv(j) + 1',
                  start=FALL('pattern', 'i - 1'),
                  after='lemma_kadvance(pattern, pattern, i as int, jv(j), i - 1);')]),
    C('kmp', params=['pattern', 'text'], requires='pattern.len() < 0x4000_0000_0000_0000 && text.len() < 0x4000_0000_0000_0000',
      ensures=['r <==> (exists|k: int| #[trigger] occurs_at(text, pattern, k))'],
      entry='lemma_pm_occurs(pattern, text, 0); ',
      loops=[loop(inv=['i <= text.len()', 'j < pattern.len()', 'pattern_size == pattern.len()', 'text_size == text.len()', 'borders(pattern, failure, pattern.len() as int)',
                       'failure.len() == pattern.len() + 1',
                       'pm(pattern, text, i as int, j as int)', 'forall|k: int| j < k <= pattern.len() ==> !#[trigger] pm(pattern, text, i as int, k)',
                       'forall|e: int| 0 <= e <= i ==> !#[trigger] pm(pattern, text, e, pattern.len() as int)'],
                  dec='text.len() - i',
                  after='''assert forall|k: int| !#[trigger] occurs_at(text, pattern, k) by { lemma_pm_occurs(pattern, text, k + pattern.len()); }'''),
             loop(inv=['kcand(pattern, text, i as int, jv(j), pattern.len() - 1)', 'j == 0xffff_ffff_ffff_ffff || j < pattern.len()'], dec='jv(j) + 1',
                  start='assert(border(pattern, j as int, jv(failure[j as int])));' + FALL('text', 'pattern.len() - 1'),
                  after='lemma_kadvance(pattern, text, i as int, jv(j), pattern.len() - 1); lemma_pm_occurs(pattern, text, i + 1);')]),
]
