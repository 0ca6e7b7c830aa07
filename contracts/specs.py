"""which contracts decide which property"""
from driver import Spec
import c_char, c_string, c_case, c_misc, c_bigint, c_text, c_format, c_expected, c_util, c_app, c_test, c_io, c_ptr, c_file, c_json, c_parse, c_out, c_bigfloat, c_conc, c_traits
from metatr import TraitSpec

PRE = ['prelude.rs', 'char.rs']
CHAR, STR, SEARCH = c_char.CHAR, c_string.STRING, c_string.SEARCH
TEXT_FNS = [c for c in STR if c.qual in ('String::DecodeUtf8Char', 'String::String', 'String::str', 'String::ByteCount', 'String::data', 'CaitlynOps::operator<<', 'CaitlynOps::operator""_str', 'String::operator=', 'String::Length')]
EDIT_FNS = [c for c in STR if c not in TEXT_FNS or c.qual in ('String::String', 'String::operator=', 'String::Length', 'String::data')]


def string_spec(roots):
    return lambda: Spec(roots, STR + SEARCH + CHAR, rs=PRE, rs2=['string.rs'], tu_extra=c_string.INST)



def big(*names):
    q = {n if n in ('<<',) else n for n in names}
    return [c for c in c_bigint.BIG if c.qual.split('::')[-1].replace('operator', '').replace('_bigint', '') in q]


def big_spec(roots):
    cs = c_bigint.BIG + STR + CHAR + c_case.CASE
    return lambda: Spec(roots, cs, rs=PRE + ['unicode.rs'], rs2=['string.rs', 'bigint.rs'])

def format_spec(roots):
    return lambda: Spec(roots, c_format.FMT + STR + SEARCH + CHAR + c_case.CASE, rs=PRE + ['unicode.rs'], rs2=['string.rs', 'text.rs', 'format.rs'], tu_extra=c_format.INST)


def text_spec(roots):
    return lambda: Spec(roots, c_text.UTIL + c_text.BUILD + c_text.FORMATTED + c_format.FMT + STR + SEARCH + CHAR + c_case.CASE, rs=PRE + ['unicode.rs'],
                        rs2=['string.rs', 'text.rs', 'format.rs'], tu_extra=c_text.INST)


PROPS = {
    'C01': dict(specs=[lambda: Spec(CHAR, CHAR, rs=PRE)], oracle='C01.cpp', secs=6),
    'C02': dict(specs=[lambda: Spec(c_case.CASE + c_case.STRCASE, c_case.CASE + c_case.STRCASE + STR + CHAR, rs=PRE + ['unicode.rs'], rs2=['string.rs'])], oracle='C02.cpp', secs=6),
    'C03': dict(specs=[string_spec(TEXT_FNS)], oracle='C03.cpp', secs=6),
    'C04': dict(specs=[string_spec(SEARCH)], oracle='C04.cpp', secs=6),
    'C05': dict(specs=[string_spec(EDIT_FNS), lambda: Spec(c_string.ITER, c_string.ITER, rs=PRE, rs2=['string.rs'])], oracle='C05.cpp', secs=6),
    'C16': dict(specs=[lambda: Spec(c_misc.KMP, c_misc.KMP, rs2=['kmp.rs'])], oracle='C16.cpp', secs=5),
    'C17': dict(specs=[lambda: Spec(c_misc.CMP, c_misc.CMP, tu_extra=c_misc.CMP_INST)], oracle='C17.cpp', secs=5),
    'C07': dict(specs=[big_spec(big('BigInteger', 'RemoveLeadingZeros', 'ToString', 'Size', '<<', '""'))], oracle='C07.cpp', secs=6),
    'C08': dict(specs=[big_spec(big('Add', 'Subtract', 'Multiply', 'Pow', 'Sqr', 'Abs', '+', '-', '*'))], oracle='C08.cpp', secs=6),
    'C09': dict(specs=[big_spec(big('Divide', 'Modulo', 'Sqrt', '/', '%'))], oracle='C09.cpp', secs=6),
    'C10': dict(specs=[big_spec(big('Equal', 'LessThan', 'GreaterThan', '<', '>', '<=', '>=', '==', '!=', '=', 'BigInteger'))], oracle='C10.cpp', secs=6),
    'C11': dict(specs=[lambda: Spec(c_bigfloat.FLOAT, c_bigfloat.FLOAT + c_bigint.BIG + STR + SEARCH + CHAR + c_case.CASE, rs=PRE + ['unicode.rs'], rs2=['string.rs', 'bigint.rs', 'bigfloat.rs'])], oracle='C11.cpp', secs=6),
    'C18': dict(specs=[text_spec(c_text.UTIL + c_text.BUILD + c_text.FORMATTED)], oracle='C18.cpp', secs=6),
    'C15': dict(specs=[lambda: Spec(c_expected.ROOTS, c_expected.EXP + c_expected.TRUSTED + STR + CHAR, rs=PRE, rs2=['string.rs', '=' + c_expected.ALIAS + c_expected.UNINT, 'expected.rs'], tu_extra=c_expected.INST,
                                    lib=c_expected.names)], oracle='C15.cpp', secs=5),
    'C23': dict(specs=[lambda: Spec(c_util.MAPS + c_util.SIZES + c_util.RANDOM + c_util.LIMITS, c_util.MAPS + c_util.SIZES + c_util.RANDOM + c_util.LIMITS + c_util.TRUSTED, rs=PRE, rs2=['=' + c_util.UNINT], tu_extra=c_util.INST,
                                    lib=c_util.names)], oracle='C23.cpp', secs=4),
    'C20': dict(specs=[lambda: Spec(c_test.ROOTS, c_test.ROOTS + c_test.LOGS + STR + CHAR, rs=PRE, rs2=['string.rs', '=' + c_test.SPEC, 'testing.rs'], tu_extra=c_test.INST, lib=c_test.names)], oracle='C20.cpp', secs=4),
    'C21': dict(specs=[lambda: Spec(c_io.IO, c_io.IO + c_io.TRUSTED + c_format.FMT + STR + SEARCH + CHAR + c_case.CASE, rs=PRE + ['unicode.rs'], rs2=['string.rs', 'text.rs', 'format.rs', '=' + c_io.UNINT], tu_extra=c_io.INST)], oracle='C21.cpp', secs=4),
    'C19': dict(specs=[lambda: Spec(c_ptr.PTRS, c_ptr.PTRS, rs=['prelude.rs'], rs2=['=' + c_ptr.ALIAS, 'ptr.rs'], tu_extra=c_ptr.INST, lib=c_ptr.names)], oracle='C19.cpp', secs=4),
    'C25': dict(specs=[lambda: Spec(c_conc.CONC, c_conc.CONC, rs=['prelude.rs'], rs2=['=' + c_conc.ALIAS, 'conc.rs', 'concptr.rs', 'concsys.rs'], tu_extra=c_conc.INST, lib=c_conc.names)], oracle='C25.cpp', secs=6),
    'C22': dict(specs=[lambda: Spec(c_file.ROOTS, c_file.ROOTS + c_io.TRUSTED + c_format.FMT + STR + SEARCH + CHAR + c_case.CASE, rs=PRE + ['unicode.rs'], rs2=['string.rs', 'text.rs', 'format.rs', '=' + c_io.UNINT, 'file.rs'], tu_extra=c_file.INST, lib=c_file.names)], oracle='C22.cpp', secs=4),
    'C14': dict(specs=[lambda: Spec(c_json.TREE, c_json.TREE + STR + SEARCH + CHAR, rs=PRE, rs2=['string.rs', 'json.rs'], tu_extra=c_json.INST, lib=c_json.names)], oracle='C14.cpp', secs=6),
    'C13': dict(specs=[lambda: Spec(c_out.OUT, c_out.OUT + c_parse.PARSER + c_parse.DOCP + c_json.TREE + c_text.UTIL + STR + SEARCH + CHAR + c_case.CASE, rs=PRE + ['unicode.rs'], rs2=['string.rs', 'text.rs', 'json.rs', 'parse.rs', 'out.rs', 'back.rs'], tu_extra=c_out.INST, lib=c_out.names)], oracle='C13.cpp', secs=6),
    'C12': dict(specs=[lambda: Spec(c_parse.PARSER + c_parse.DOCP, c_parse.PARSER + c_parse.DOCP + c_json.TREE + c_text.UTIL + STR + SEARCH + CHAR + c_case.CASE, rs=PRE + ['unicode.rs'], rs2=['string.rs', 'text.rs', 'json.rs', 'parse.rs'], tu_extra=c_parse.INST, lib=c_parse.names)], oracle='C12.cpp', secs=6),
    'C26': dict(specs=[lambda: Spec(c_app.APP, c_app.APP, rs=PRE, rs2=['=' + c_app.SPEC], tu_extra=c_app.INST, lib=c_app.names)], oracle='C26.cpp', secs=4),
    'C24': dict(specs=[lambda: TraitSpec(c_traits.TRAITS, 'types.rs'), lambda: TraitSpec(c_traits.TRAITS, 'types.rs', 'c++20')], oracle='C24.cpp', oracle_flags=('-O0',), oracle_std=('c++20',), secs=3),
    'C06': dict(specs=[format_spec(c_format.FMT)], oracle='C06.cpp', secs=6),
}
NOT_APPLICABLE = {
}
# what a check takes for granted beyond check.specs_common(); written into the evidence
ASSUME = {
    'C02': ['the simple case mappings of Unicode 15 listed in contracts/unicode.rs are the reference'],
    'C11': ['a BigFloat has fewer than 2^57 fraction digits, and so have the intermediate products of Pow', 'BigFloat(double) is not covered: std::to_string is not modelled'],
    'C12': ['std::stod is an uninterpreted function of its text', 'stack depth is unlimited', 'inserting an empty stream buffer sets failbit; that is ignored', 'the position of the stream after parsing is not specified'],
    'C13': ['the text of a floating-point number is uninterpreted, only known to be UTF-8 without NUL (axiom_flt_text)', 'floats and U+0000 are outside the round trip', 'stream width, fill and locale are default'],
    'C14': ['owning pointers are modelled as tree values: no sharing, no cycles', 'aliasing only between an operation\'s argument and a direct element of its object; moving a parent into its own child is excluded', 'conversions from floating point are uninterpreted'],
    'C15': ['copy constructors, default constructors and functors of the arbitrary element types have the trusted contracts listed in trusted_contracts'],
    'C16': [],
    'C19': ['reference counting is sequential here: memory orders and concurrent use are C25', 'destructors of the managed objects are further operations of the history; only an operand inside the deleted object is modelled explicitly', 'ownership cycles are out of scope; a WeakPtr is specified as what it is, an owner'],
    'C20': ['test functions do not touch the registry', 'clocks are opaque', 'fewer than 2^57 tests', 'each assertion macro is verified in one generated expansion, with integer (ASSERT_STREQ: C string) operands, TEST and TEST_F in one expansion each', 'the static object of TestRegistry::Instance is a ghost variable of the registrars; that constructors of namespace-scope objects run before main is the language\'s'],
    'C21': ['streams are in a good state', 'the formatted text of arbitrary types is the text they insert into a stream (trusted contracts)'],
    'C22': ['whether a file can be opened or cleared is fixed per name; writes to an open file succeed', 'names and files are one-to-one; no other process writes to them', 'text up to NUL', 'a flushed stream has its bytes in the file (the buffer is a flag: written and not yet flushed, closed or moved)'],
    'C23': ['hashing, equality and copying of arbitrary keys and values have the trusted contracts listed in trusted_contracts; the random engine is an uninterpreted sequence and the standard distributions stay within their bounds and are uniform on them (their precondition, bounds in order, is an obligation; that a number is drawn from them is a fact of its own, drawn/bern_drawn)'],
    'C26': ['each entry of argv below argc is a C string', 'when an allocation fails in Initialize, what it had copied so far stays (the flag is then not set); no allocation failure is modelled', 'the program holds one Application (its constructor is private)'],
    'C24': ['tool/metatr.py chooses specialisations, collapses references, adds qualifiers and resolves the nullptr overloads as the standard prescribes (the harness compares with the compiler on several hundred types)', 'standard-library traits that depend on a class definition (trivial, constructible, base_of, ...) and the validity of an arbitrary expression are uninterpreted: the traits are proved to ask for exactly that', 'the fundamental types of C++11 on x86-64 Linux; no vendor extensions (__int128, vector types)', 'HasSubscriptOperatorType is not covered: what it should mean for T[T] is not documented'],
    'C25': ['each operation is verified for one thread with arbitrary steps (env) of the others before every step of its own; concsys.rs proves that all steps together keep the threads\' views consistent', 'a SharedPtr itself is used by one thread at a time or only read; handing one over is synchronised by the caller (lemma_sys_give, lemma_sys_borrow)', 'a plain load of the counter tells nothing; only its read-modify-writes, stores to an unpublished counter, new, delete and acquire fences are steps; release fences are not modelled as publishing', 'read-modify-writes on a counter continue its release sequence (C++11); the counter does not overflow', 'destructors of managed objects are further operations; WeakPtr is out of scope'],
}
