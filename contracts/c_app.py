"""the Application object: there is one, it is initialised once, and it owns copies of the program's arguments."""
from contract import Contract as C, loop
from xlate import seq_lit
import rawmem

INST = '''namespace Caitlyn { inline void vp_app(const int& c, const char** v) { const Application* a = Application::Initialise(); Application::Initialize(c, v); a->GetArgs(); a->GetSystemName(); a->GetCompilerInfo(); a->GetCaitlynInfo(); } }
'''
SPEC = '''
pub type App = XApplication;
// the text of c and zeros after it, n bytes at least
pub open spec fn cstr_padded(c: CStr, n: int) -> CStr { CStr { buf: cstr_bytes(c) + Seq::new(n as nat, |i: int| 0u8), off: 0, own: false, raw: false } }
// writes into an array of buf.len() + 1 bytes; raw: its last byte need not be zero
pub open spec fn cstr_put(d: CStr, i: int, v: u8) -> CStr { if i == d.buf.len() { CStr { raw: v != 0, ..d } } else { CStr { buf: d.buf.update(i, v), ..d } } }
pub open spec fn cstr_copy(d: CStr, s: CStr, n: int) -> CStr { CStr { buf: Seq::new(d.buf.len(), |i: int| if i < n { cstr_at(s, i) } else { d.buf[i] }), raw: if n == d.buf.len() + 1 { cstr_at(s, n - 1) != 0 } else { d.raw }, ..d } }
// the text ends inside the array
pub open spec fn text_ok(c: CStr) -> bool { 0 <= c.off <= c.buf.len() && (!c.raw || nulpos(c.buf, c.off) < c.buf.len()) }
// every argument kept is a C string in an array of its own
pub open spec fn app_ok(a: App, init: bool) -> bool {
    (!init ==> a.args_.len() == 0) && forall|i: int| 0 <= i < a.args_.len() ==> (#[trigger] a.args_[i]).own && a.args_[i].off == 0 && text_ok(a.args_[i])
}
pub open spec fn kept(a: App, argc: int, argv: Seq<CStr>) -> bool {
    a.args_.len() == argc && forall|i: int| 0 <= i < argc ==> (#[trigger] a.args_[i]).own && a.args_[i].off == 0 && text_ok(a.args_[i]) && cstr_bytes(a.args_[i]) == cstr_bytes(argv[i])
}
// r holds the bytes of s and a terminator after them
pub broadcast proof fn lemma_copied(r: CStr, s: CStr)
    requires cstr_ok(s), r.off == 0, r.buf.len() >= nulpos(s.buf, s.off) - s.off,
        forall|i: int| 0 <= i < nulpos(s.buf, s.off) - s.off ==> #[trigger] r.buf[i] == s.buf[s.off + i],
        if r.buf.len() == nulpos(s.buf, s.off) - s.off { !r.raw } else { r.buf[nulpos(s.buf, s.off) - s.off] == 0 },
    ensures text_ok(r), #[trigger] cstr_bytes(r) =~= #[trigger] cstr_bytes(s)
{
    lemma_nulpos(s.buf, s.off); lemma_nulpos(r.buf, 0);
    let n = nulpos(s.buf, s.off) - s.off;
    assert forall|i: int| 0 <= i < n implies r.buf[i] == s.buf[s.off + i] && r.buf[i] != 0 by { assert(s.buf[s.off + i] != 0); }
    if nulpos(r.buf, 0) < n { assert(r.buf[nulpos(r.buf, 0)] == 0); }
    if nulpos(r.buf, 0) > n { assert(r.buf[n] != 0); }
}
pub broadcast proof fn lemma_end(d: CStr, s: CStr, k: int)
    requires cstr_ok(s), k == nulpos(s.buf, s.off) - s.off + 1, k <= d.buf.len()
    ensures (#[trigger] cstr_copy(d, s, k)).buf[nulpos(s.buf, s.off) - s.off] == 0
{ lemma_nulpos(s.buf, s.off); assert(cstr_copy(d, s, k).buf[k - 1] == cstr_at(s, k - 1)); }
pub broadcast proof fn lemma_len(s: CStr)
    requires cstr_ok(s)
    ensures #[trigger] cstr_bytes(s).len() == nulpos(s.buf, s.off) - s.off, s.off <= nulpos(s.buf, s.off) <= s.buf.len(), nulpos(s.buf, s.off) < s.buf.len() ==> s.buf[nulpos(s.buf, s.off)] == 0
{ lemma_nulpos(s.buf, s.off); }
'''
A = 'Application'
NAMES = ['lib_version_', 'system_name_', 'compiler_']
G = [('the_Application', 'XApplication'), ('initialized_', 'bool')]
OK = 'app_ok(the_Application, initialized_)'
SAME = ' && '.join(f'the_Application1.{n} == the_Application.{n}' for n in NAMES)
ARGS = 'argc <= 0 || (argc <= argv.len() && forall|i: int| 0 <= i < argc ==> cstr_ok(#[trigger] argv[i]))'
APP = [
    C(f'{A}::Initialise', globals=G, throws=True, requires=[OK],
      ensures=['exc is None <==> !initialized_', 'exc is None || exc is RuntimeError', 'the_Application1 == the_Application', 'initialized_1', 'exc is None ==> r', 'app_ok(the_Application1, initialized_1)']),
    C(f'{A}::Initialize', params=['argc', 'argv'], globals=G, throws=True, requires=[OK, ARGS],
      ensures=['exc is None <==> !initialized_', 'exc is None || exc is RuntimeError', '!(exc is None) ==> the_Application1 == the_Application', 'initialized_1', 'exc is None ==> r', 'app_ok(the_Application1, initialized_1)', SAME,
               'exc is None ==> kept(the_Application1, if argc > 0 { argc as int } else { 0 }, argv)']),
    C(f'{A}::SetArgs', params=['argc', 'argv'], entry='broadcast use lemma_copied, lemma_len, lemma_end;', requires=['this.args_.len() == 0', ARGS],
      ensures=['kept(this1, if argc > 0 { argc as int } else { 0 }, argv)', SAME.replace('the_Application1', 'this1').replace('the_Application', 'this')],
      loops=[loop(inv=['0 <= i <= argc', 'kept(this, i as int, argv)', SAME.replace('the_Application1', 'this').replace('the_Application', 'this0')], dec='argc - i')]),
    C(f'{A}::{A}', ensures=['r.args_.len() == 0', f'r.system_name_ == lit({seq_lit(list(b"Linux"))})', 'cstr_ok(r.lib_version_) && r.lib_version_.buf.len() > 0', 'cstr_ok(r.compiler_) && r.compiler_.buf.len() > 0']),
    C(f'{A}::~{A}', requires=['app_ok(this, true)'], loops=[loop(inv=['app_ok(this, true)'])]),
    C(f'{A}::GetArgs', ensures=['r == this.args_']),
    C(f'{A}::GetSystemName', ensures=['r == this.system_name_']),
    C(f'{A}::GetCompilerInfo', ensures=['r == this.compiler_']),
    C(f'{A}::GetCaitlynInfo', ensures=['r == this.lib_version_']),
]


def names(lib):
    rawmem.install(lib, {'initialized_': ('bool',), 'application_': ('single', A)}, {A})
    lib.fieldnames[A] = NAMES + ['args_']
