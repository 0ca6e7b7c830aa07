"""the test registry; test functions are arbitrary: they may return or throw anything, every call is recorded in `calls`."""
from contract import Contract as C, loop
from xlate import seq_lit

EQ = '((a.off == -1 && b.off == -1) || (a.off != -1 && b.off != -1 && cstr_bytes(a) =~= cstr_bytes(b)))'
# the assertion macros, expanded by the compiler into one small function each
MACROS = [('true', 'bool a', 'ASSERT_TRUE(a)', 'a'), ('false', 'bool a', 'ASSERT_FALSE(a)', '!a'),
          ('eq', 'long a, long b', 'ASSERT_EQ(a, b)', 'a == b'), ('eqp', 'long a, long b', 'ASSERT_EQ_PRINTABLE(a, b)', 'a == b'), ('ne', 'long a, long b', 'ASSERT_NE(a, b)', 'a != b'),
          ('lt', 'long a, long b', 'ASSERT_LT(a, b)', 'a < b'), ('le', 'long a, long b', 'ASSERT_LE(a, b)', 'a <= b'),
          ('gt', 'long a, long b', 'ASSERT_GT(a, b)', 'a > b'), ('ge', 'long a, long b', 'ASSERT_GE(a, b)', 'a >= b'),
          ('pass', '', 'PASS()', 'true'), ('fail', '', 'FAIL()', 'false'),
          ('message', 'const char* a', 'FAIL_MESSAGE() << a', 'false'), ('streq', 'const char* a, const char* b', 'ASSERT_STREQ(a, b)', EQ)]
INST = ''.join(f'namespace Caitlyn {{ inline void vp_assert_{n}({a}) {{ {m}; }} }}\n' for n, a, m, _ in MACROS) + '''namespace Caitlyn { inline void vp_test(Test::TestRegistry& r, String a, Test::TestFunction f) { r.AddTest(a, a, f); r.RunAll(); } }
namespace Caitlyn { TEST(VpSuite, VpCase) {} struct VpFixture {}; TEST_F(VpFixture, VpOther) {} }
'''


def b(s):
    return seq_lit(list(s.encode()))


IOG = [('io', 'IO')]
OTHERS = 'io1.cerr == io.cerr && io1.clog == io.clog && io1.cin == io.cin'
SPEC = f'''
pub open spec fn fail_line(t: Tc) -> Seq<u8> {{ {b("[  FAILED  ] ")} + flat(t.suite_name.data_) + seq![46u8] + flat(t.test_name.data_) + seq![10u8] }}
pub open spec fn name_of(t: Tc) -> Seq<u8> {{ flat(t.suite_name.data_) + seq![46u8] + flat(t.test_name.data_) }}
pub open spec fn run_line(t: Tc) -> Seq<u8> {{ {b("[ RUN      ] ")} + name_of(t) + seq![10u8] }}
pub open spec fn ok_head(t: Tc) -> Seq<u8> {{ {b("[       OK ] ")} + name_of(t) + {b(" (")} }}
pub open spec fn ok_tail() -> Seq<u8> {{ {b(" ms)" + chr(10))} }}
pub open spec fn bad_head(t: Tc) -> Seq<u8> {{ {b("[     FAIL ] ")} + name_of(t) + {b(" (")} }}
pub open spec fn bad_tail(why: Seq<u8>) -> Seq<u8> {{ {b(" ms)" + chr(10) + "[     INFO ] ")} + why + seq![10u8] }}
pub open spec fn suite_head(name: Seq<u8>, n: int) -> Seq<u8> {{ {b("[----------] ")} + int_dec(n) + {b(" tests from ")} + name }}
pub open spec fn suite_time() -> Seq<u8> {{ {b(" (")} }}
pub open spec fn suite_tail() -> Seq<u8> {{ {b(" ms total)" + chr(10) + chr(10))} }}
pub open spec fn end_tail() -> Seq<u8> {{ {b(" ms total)" + chr(10))} }}
pub open spec fn end_head(total: int, suites: int) -> Seq<u8> {{ {b("[----------] Global test environment tear-down" + chr(10) + "[==========] ")} + int_dec(total) + {b(" tests from ")} + int_dec(suites) + {b(" test cases ran. (")} }}
pub open spec fn head_lines(total: int, suites: int) -> Seq<u8> {{ {b("[==========] Running ")} + int_dec(total) + {b(" tests from ")} + int_dec(suites) + {b(" test cases." + chr(10) + "[----------] Global test environment set-up." + chr(10) + chr(10))} }}
pub open spec fn plural(n: int, one: Seq<u8>, more: Seq<u8>) -> Seq<u8> {{ if n == 1 {{ one }} else {{ more }} }}
// the summary, written after what is there already
pub open spec fn summary(c: Seq<u8>, passed: int, failed: int, d: Seq<Tc>) -> Seq<u8> {{
    let c1 = if passed > 0 {{ c + {b("[  PASSED  ] ")} + int_dec(passed) + {b(" test")} + plural(passed, Seq::empty(), {b("s")}) + {b("." + chr(10))} }} else {{ c }};
    let c2 = if failed > 0 {{ c1 + {b("[  FAILED  ] ")} + int_dec(failed) + {b(" test")} + plural(failed, Seq::empty(), {b("s")}) + {b(", listed below:" + chr(10))} + fail_lines(d) }} else {{ c1 }};
    c2 + {b(chr(10))} + int_dec(failed) + {b(" FAILED TEST")} + plural(failed, Seq::empty(), {b("S")}) + {b(chr(10))}
}}
'''
def log(name, params, out, tail=None, requires=(), when=None, more=[]):
    """what one Log function adds to standard output: out, or out, a duration (left open) and tail"""
    e = f'io1.cout =~= io.cout + {out}' if tail is None else f'between(io1.cout, io.cout + {out}, {tail})'
    if when:
        e = f'if {when} {{ {e} }} else {{ io1.cout == io.cout }}'
    return C('Test::TestRegistry::' + name, params=params, globals=IOG, requires=requires, ensures=[e, 'starts(io1.cout, io.cout)', OTHERS] + more)


LOGS = [log('LogStart', None, 'head_lines(this.total_ as int, this.tests_.len() as int)'),
        log('LogSuiteStart', ['suite_name', 'test_count'], 'suite_head(flat(suite_name.data_), test_count as int).push(10u8)'),
        log('LogTestStart', ['test'], 'run_line(test)'),
        log('LogTestEnd', ['test', 'duration'], 'ok_head(test)', 'ok_tail()', when='test.passed'),
        log('LogTestFailure', ['test', 'message'], 'bad_head(test)', 'bad_tail(cstr_bytes(message))', requires='cstr_ok(message)', more=['between(io1.cout, io.cout + bad_head(test), seq![10u8])']),
        log('LogSuiteEnd', ['suite_name', 'test_count', 'total_time'], '(suite_head(flat(suite_name.data_), test_count as int) + suite_time())', 'suite_tail()'),
        log('LogEnd', None, 'end_head(this.total_ as int, this.tests_.len() as int)', 'end_tail()')]
D = 'all_tests(this.tests_.take(_i))'
D2 = '(all_tests(this.tests_.take(_o)) + this.tests_[_o].second.take(_i))'


HEAD = 'io0.cout + head_lines(this0.total_ as int, this0.tests_.len() as int)'


def state(d):
    return [f'ran({d}, calls.skip(calls0.len() as int))', 'calls.len() >= calls0.len()', 'calls.take(calls0.len() as int) == calls0', f'this.passed_ == npass({d})', f'this.failed_ == {d}.len() - npass({d})',
            'like(this.tests_, this0.tests_)', 'this.total_ == this0.total_', 'io.cerr == io0.cerr && io.clog == io0.clog && io.cin == io0.cin',
            f'reported({HEAD}, {d}, io.cout)']


TESTS = [
    C('Test::TestRegistry::AddTest', params=['suite_name', 'test_name', 'func'],
      ensures=['added(all_tests(this.tests_), all_tests(this1.tests_), XTest_TestCase { suite_name: suite_name, test_name: test_name, function: func, passed: false })',
               'this1.passed_ == this.passed_ && this1.failed_ == this.failed_', 'this.total_ < u64::MAX ==> this1.total_ == this.total_ + 1'], entry='broadcast use lemma_add_at, lemma_insert_empty;'),
    C('Test::TestRegistry::LogSummary', globals=IOG, ensures=['io1.cout =~= summary(io.cout, this.passed_ as int, this.failed_ as int, all_tests(this.tests_))', OTHERS],
      loops=[loop(inv=[f'io.cout =~= _c + fail_lines({D})', 'io.cerr == io0.cerr && io.clog == io0.clog && io.cin == io0.cin'], before='let ghost _c = io.cout;',
                  start='let ghost _o = _i; let ghost _c2 = io.cout;', after='assert(this.tests_.take(this.tests_.len() as int) =~= this.tests_);',
                  end='''lemma_all_take(this.tests_, _o); assert(this.tests_[_o].second.take(this.tests_[_o].second.len() as int) =~= this.tests_[_o].second);'''),
             loop(inv=[f'io.cout =~= _c + fail_lines({D2})', 'io.cerr == io0.cerr && io.clog == io0.clog && io.cin == io0.cin'],
                  before='assert(all_tests(this.tests_.take(_o)) + this.tests_[_o].second.take(0) =~= all_tests(this.tests_.take(_o)));',
                  end='''lemma_npass_push(all_tests(this.tests_.take(_o)) + this.tests_[_o].second.take(_i - 1), this.tests_[_o].second[_i - 1]);
                  assert((all_tests(this.tests_.take(_o)) + this.tests_[_o].second.take(_i - 1)).push(this.tests_[_o].second[_i - 1]) =~= all_tests(this.tests_.take(_o)) + this.tests_[_o].second.take(_i));''')]),
    C('Test::TestRegistry::RunAll', globals=[('calls', 'Seq<(FnId, Exc)>')] + IOG, requires='all_tests(this.tests_).len() <= 0x0200_0000_0000_0000', throws=False, entry='broadcast use lemma_reported_more;',
      ensures=['like(this1.tests_, this.tests_)', 'calls1.len() >= calls.len() && calls1.take(calls.len() as int) == calls', 'ran(all_tests(this1.tests_), calls1.skip(calls.len() as int))',
               'this1.passed_ == npass(all_tests(this1.tests_))', 'this1.failed_ == all_tests(this1.tests_).len() - npass(all_tests(this1.tests_))',
               'r != 0 <==> exists|i: int| 0 <= i < all_tests(this1.tests_).len() && !(#[trigger] all_tests(this1.tests_)[i]).passed',
               'r != 0 ==> (r as int) % 256 != 0',
               'exists|s: Seq<u8>, e: Seq<u8>| io1.cout == #[trigger] summary(e, this1.passed_ as int, this1.failed_ as int, all_tests(this1.tests_)) && #[trigger] reported(io.cout + head_lines(this.total_ as int, this.tests_.len() as int), all_tests(this1.tests_), s) && framed(io.cout + head_lines(this.total_ as int, this.tests_.len() as int), this.tests_, s) && between(e, s + end_head(this.total_ as int, this.tests_.len() as int), end_tail())', OTHERS],
      loops=[loop(inv=state(D) + [f'framed({HEAD}, this0.tests_.take(_i), io.cout)'], start=f'let ghost _o = _i; let ghost _rh = {HEAD}; let ghost _fa = io.cout;', after='assert(this.tests_.take(this.tests_.len() as int) =~= this.tests_); assert(this0.tests_.take(this.tests_.len() as int) =~= this0.tests_);',
                  end='lemma_all_take(this.tests_, _o); assert(this.tests_[_o].second.take(this.tests_[_o].second.len() as int) =~= this.tests_[_o].second); assert(exists|b: Seq<u8>| #[trigger] opening(this0.tests_[_o], _fa, b) && closing(this0.tests_[_o], b, io.cout)); let _fb = choose|b: Seq<u8>| #[trigger] opening(this0.tests_[_o], _fa, b) && closing(this0.tests_[_o], b, io.cout); lemma_framed_push(_rh, this0.tests_, _o, _fa, _fb, io.cout);'),
             loop(inv=state(D2) + ['opening(this0.tests_[_o], _fa, io.cout)', f'framed({HEAD}, this0.tests_.take(_o), _fa)'], before='assert(all_tests(this.tests_.take(_o)) + this.tests_[_o].second.take(0) =~= all_tests(this.tests_.take(_o))); ',
                  start='let ghost _t = this.tests_; let ghost _k = calls; let ghost _rt = io.cout; lemma_like_len(this.tests_, this0.tests_); lemma_all_prefix(this.tests_, _o);',
                  end='''assert(this.tests_.take(_o) =~= _t.take(_o)); assert(this.tests_[_o].second.take(_i - 1) =~= _t[_o].second.take(_i - 1));
                  lemma_npass_push(all_tests(_t.take(_o)) + _t[_o].second.take(_i - 1), this.tests_[_o].second[_i - 1]);
                  assert((all_tests(_t.take(_o)) + _t[_o].second.take(_i - 1)).push(this.tests_[_o].second[_i - 1]) =~= all_tests(this.tests_.take(_o)) + this.tests_[_o].second.take(_i));
                  lemma_reported_push(_rh, all_tests(_t.take(_o)) + _t[_o].second.take(_i - 1), this.tests_[_o].second[_i - 1], _rt, io.cout); lemma_opening_more(this0.tests_[_o], _fa, _rt, io.cout);''')],
      ret='lemma_npass_bounds(all_tests(this.tests_));', rlimit=120),
]
ASSERTS = [C(f'vp_assert_{n}', params=[x.split()[-1] for x in a.split(', ') if x], throws=True, requires=[f'{x.split()[-1]}.off == -1 || cstr_ok({x.split()[-1]})' if n == 'streq' else f'cstr_ok({x.split()[-1]})' for x in a.split(', ') if 'char' in x], ensures=[f'exc is None <==> ({e})'],
             loops=[loop(ens=[EQ], dec='0int')] if n == 'streq' else []) for n, a, _, e in MACROS]
MESSAGE = [C('Test::TestFailMessage::Fail', throws=True, ensures=['exc is RuntimeError']),
           C('Test::TestFailMessage::operator<<', params=['value'], requires='cstr_ok(value)', throws=True, ensures=['exc is RuntimeError'])]
def registrar(name, suite, test, fn):
    """the constructor the macro TEST (TEST_F) defines an object of: registers the test in the one registry of the program"""
    return C(f'{name}_Registrar::{name}_Registrar', globals=[('registry', 'XTest_TestRegistry')],
             ensures=[f'registers(all_tests(registry.tests_), all_tests(registry1.tests_), {b(suite)}, {b(test)}, {b(fn)})',
                      'registry1.passed_ == registry.passed_ && registry1.failed_ == registry.failed_', 'registry.total_ < u64::MAX ==> registry1.total_ == registry.total_ + 1'],
             entry=f'lemma_name({b(suite)}); lemma_name({b(test)});')


REGISTER = [registrar('VpSuite_VpCase', 'VpSuite', 'VpCase', 'VpSuite_VpCase'), registrar('VpOther', 'VpFixture', 'VpOther', 'VpOther_Fixture().Run()')]
ROOTS = TESTS + MESSAGE + ASSERTS + REGISTER


def names(lib):
    lib.fieldnames['Test::TestCase'] = ['suite_name', 'test_name', 'function', 'passed']
