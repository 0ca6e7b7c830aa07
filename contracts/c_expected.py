"""Expected: lifetime of the held object, and the functional operations, for arbitrary value, error and function types.

The value and error types are classes of which nothing is known but that copies are equal (and may throw) and that
moves give the old value; the functions are arbitrary: results and exceptions are uninterpreted functions of their
arguments, and every call is recorded in the ghost history `calls`."""
from contract import Contract as C

V_, E_, O_ = 'VpVal', 'VpErr', 'VpOut'
CLS = ''.join(f'struct {n} {{ std::vector<int> v; {n}(); {n}(const {n}& o); {n}({n}&& o) noexcept; {n}& operator=(const {n}& o) = delete; ~{n}(); }};\n' for n in (V_, E_, O_))
FUN = '''
struct VpMap { int k; VpOut operator()(const VpVal& x) const; };
struct VpEMap { int k; VpOut operator()(const VpErr& x) const; };
struct VpEVal { int k; VpVal operator()(const VpErr& x) const; };
struct VpPred { int k; bool operator()(const VpVal& x) const; };
struct VpSee { int k; void operator()(const VpErr& x) const; };
struct VpFold { int k; VpOut operator()(const VpOut& a, const VpVal& x) const; };
typedef Expected<VpVal, VpErr> EV;
struct VpBind { int k; EV operator()(const VpVal& x) const; };
struct VpEBind { int k; EV operator()(const VpErr& x) const; };
bool operator==(const VpErr& a, const VpErr& b);
struct VpWhole { int k; VpOut operator()(const EV& x) const; };
inline void vp_expected(EV& e, EV& f, const VpVal& v, const VpErr& r, const VpOut& o, VpOut&& o2, const Unexpected<VpErr>& u, String m, std::string s)
{
    EV a{v}; EV b{std::move(a)}; EV c{u}; EV d{Unexpected<VpErr>{r}}; EV g{e}; EV h{VpVal{}};
    e = f; e = std::move(f);
    if (e) {} e.HasValue(); e.HasError(); e.Get(); e.GetError();
    e.Map(VpMap{1}); e.MapError(VpEMap{1}); e.AndThen(VpBind{1}); e.OrElse(VpEBind{1}); e.Then(VpBind{1}); e.CatchError(VpEBind{1});
    e.UnwrapOr(v); e.UnwrapOrElse(VpEVal{1}); e.UnwrapOrDefault(); e.UnwrapOrDefault(v); e.Expect(m); e.ExpectError(s);
    e.Filter(VpPred{1}); e.Fold(o, VpFold{1}); e.OnError(VpSee{1}); e.Customize(VpWhole{1}); e.Inspect(VpMap{1}, VpEMap{1});
    MakeError(VpErr{}); MakeError(m); MakeError("x"); MakeCorrect<VpVal, VpErr>(VpVal{}); u.Get(); ::operator==(u, u); ::operator!=(u, u);
}
'''
INST = 'namespace Caitlyn {\n' + CLS + FUN + '}\n'

EV, EO, EM = (f'Expected<Caitlyn::{a}, Caitlyn::{b}>' for a, b in ((V_, E_), (O_, E_), (V_, O_)))
UE, UO = f'Unexpected<Caitlyn::{E_}>', f'Unexpected<Caitlyn::{O_}>'


def names(lib):
    for c in (EV, EO, EM):
        lib.fieldnames[c] = ['data_', 'hasValue_']
        lib.fieldnames[c + '::DataUnion'] = ['value', 'error']
    for c in (UE, UO):
        lib.fieldnames[c] = ['error_']


ALIAS = ''.join(f'pub type {a} = {b};\n' for a, b in (
    [(f'X{k}', 'X' + n) for k, n in (('Ev', 'Expected_Caitlyn_VpVal_Caitlyn_VpErr'), ('Eo', 'Expected_Caitlyn_VpOut_Caitlyn_VpErr'), ('Em', 'Expected_Caitlyn_VpVal_Caitlyn_VpOut'))] +
    [(f'X{k}U', f'X{n}_DataUnion') for k, n in (('Ev', 'Expected_Caitlyn_VpVal_Caitlyn_VpErr'), ('Eo', 'Expected_Caitlyn_VpOut_Caitlyn_VpErr'), ('Em', 'Expected_Caitlyn_VpVal_Caitlyn_VpOut'))] +
    [('XUe', 'XUnexpected_Caitlyn_VpErr'), ('XUo', 'XUnexpected_Caitlyn_VpOut')]))

# ---- the arbitrary types: copies are equal or throw, moves hand the value over
TRUSTED = []
for n in (V_, E_, O_):
    TRUSTED += [C(f'{n}::{n}', f'void (const Caitlyn::{n} &)', params=['o'], throws=True, ensures=['exc is None ==> r == o', f'exc == {n}_copy(o)'], trusted=True),
                C(f'{n}::{n}', f'void (Caitlyn::{n} &&)', params=['o'], ensures=['r == o'], trusted=True),
                C(f'{n}::{n}', 'void ()', ensures=[f'r == {n}_default()'], trusted=True)]
UNINT = ''.join(f'pub uninterp spec fn {n}_copy(o: X{n}) -> Exc;\npub uninterp spec fn {n}_default() -> X{n};\n' for n in (V_, E_, O_))


def functor(name, args, ret, call, wf=None):
    global UNINT
    al = ', '.join(a for a, _ in args)
    UNINT += f'pub uninterp spec fn {name}_exc(k: X{name}, {", ".join(f"{a}: {t}" for a, t in args)}) -> Exc;\n'
    ens = [f'calls1 == calls.push(Call::{call}({al}))', f'exc == {name}_exc(this, {al})']
    if ret:
        UNINT += f'pub uninterp spec fn {name}_val(k: X{name}, {", ".join(f"{a}: {t}" for a, t in args)}) -> {ret};\n'
        ens.append(f'exc is None ==> r == {name}_val(this, {al})')
    if wf:
        ens.append(f'exc is None ==> {wf}(r)')
    TRUSTED.append(C(name + '::operator()', params=[a for a, _ in args], globals=[('calls', 'Seq<Call>')], throws=True, ensures=ens, trusted=True))


functor('VpMap', [('x', 'XVpVal')], 'XVpOut', 'Val')
functor('VpEMap', [('x', 'XVpErr')], 'XVpOut', 'Err')
functor('VpEVal', [('x', 'XVpErr')], 'XVpVal', 'Err')
functor('VpPred', [('x', 'XVpVal')], 'bool', 'Val')
functor('VpSee', [('x', 'XVpErr')], None, 'Err')
functor('VpFold', [('a', 'XVpOut'), ('x', 'XVpVal')], 'XVpOut', 'Fold')
functor('VpBind', [('x', 'XVpVal')], 'XEv', 'Val', 'ev_wf')
functor('VpEBind', [('x', 'XVpErr')], 'XEv', 'Err', 'ev_wf')
functor('VpWhole', [('x', 'XEv')], 'XVpOut', 'Whole')

UNINT += 'pub uninterp spec fn VpErr_eq(a: XVpErr, b: XVpErr) -> bool;\npub uninterp spec fn VpErr_eq_exc(a: XVpErr, b: XVpErr) -> Exc;\n'
TRUSTED.append(C('operator==', 'bool (const VpErr &, const VpErr &)', params=['a', 'b'], throws=True, ensures=['exc == VpErr_eq_exc(a, b)', 'exc is None ==> r == VpErr_eq(a, b)'], trusted=True))
WF = 'ev_wf(this)'
G = [('calls', 'Seq<Call>')]
VAL, ERR = 'this.data_->value_0', 'this.data_->error_0.error_'
# what copying *this gives
SELF = [f'(this.hasValue_ ? V : E)']


def m(name, sig=None, params=None, ens=(), req=(WF,), throws=False, glob=(), **k):
    return C(f'{EV}::{name}', sig, params=params, requires=list(req), ensures=list(ens), throws=throws, globals=list(glob), **k)


def cases(v, e):
    return [f'this.hasValue_ ==> ({{ let v = {VAL}; {v} }})', f'!this.hasValue_ ==> ({{ let e = {ERR}; {e} }})']


SAME_V = 'calls1 == calls && exc == VpVal_copy(v) && (exc is None ==> r == ev_ok(v))'
SAME_E = 'calls1 == calls && exc == VpErr_copy(e) && (exc is None ==> r == ev_err(e))'


def called(f, arg, kind, then):
    return f'calls1 == calls.push(Call::{kind}({arg})) && (!({f}_exc(func, {arg}) is None) ==> exc == {f}_exc(func, {arg})) && ({f}_exc(func, {arg}) is None ==> ({then}))'


def copied(t, c):
    return f'exc == {t}_copy({c})'


EXP = []
for cls, wf, ok, er, vt, et in ((EV, 'ev_wf', 'ev_ok', 'ev_err', V_, E_), (EO, 'eo_wf', 'eo_ok', 'eo_err', O_, E_), (EM, 'em_wf', 'em_ok', 'em_err', V_, O_)):
    ue = 'XUe' if et == E_ else 'XUo'
    EXP += [
        C(f'{cls}::Expected', 'void (const ValueType &)', params=['value'], throws=True, ensures=[f'exc == {vt}_copy(value)', f'exc is None ==> r == {ok}(value)']),
        C(f'{cls}::Expected', 'void (ValueType &&)', params=['value'], ensures=[f'r == {ok}(value)']),
        C(f'{cls}::Expected', 'void (const Unexpected<ErrorType> &)', params=['error'], throws=True, ensures=[f'exc == {et}_copy(error.error_)', f'exc is None ==> r == {er}(error.error_)']),
        C(f'{cls}::Expected', 'void (Unexpected<ErrorType> &&)', params=['error'], ensures=[f'r == {er}(error.error_)']),
        C(f'{cls}::Expected', f'void (const Caitlyn::{cls} &)', params=['other'], requires=f'{wf}(other)', throws=True,
          ensures=[f'exc == (if other.hasValue_ {{ {vt}_copy(other.data_->value_0) }} else {{ {et}_copy(other.data_->error_0.error_) }})', 'exc is None ==> r == other', f'exc is None ==> {wf}(r)']),
        C(f'{cls}::Expected', f'void (Caitlyn::{cls} &&)', params=['other'], requires=f'{wf}(other)', ensures=['r == other', f'{wf}(other1)', 'other1.hasValue_ == other.hasValue_']),
        C(f'{cls}::~Expected', requires=f'{wf}(this)', ensures=['this1.data_ is Nothing']),
        C(f'{cls}::operator=', f'(const Caitlyn::{cls} &)', params=['other'], requires=[f'{wf}(this)', f'{wf}(other)'], throws=True,
          ensures=[f'{wf}(this1)', 'exc is None ==> this1 == other', '!(exc is None) ==> this1 == this',
                   f'exc == (if other.hasValue_ {{ {vt}_copy(other.data_->value_0) }} else {{ {et}_copy(other.data_->error_0.error_) }})'] ),
        C(f'{cls}::operator=', f'(Caitlyn::{cls} &&)', params=['other'], requires=[f'{wf}(this)', f'{wf}(other)'],
          ensures=[f'{wf}(this1)', 'this1 == other', f'{wf}(other1)']),
    ]

SELFCOPY = cases('exc == VpVal_copy(v) && (exc is None ==> r == ev_ok(v))', 'exc == VpErr_copy(e) && (exc is None ==> r == ev_err(e))')
EXP += [
    m('operator bool', ens=['r == this.hasValue_']),
    m('HasValue', ens=['r == this.hasValue_']),
    m('HasError', ens=['r == !this.hasValue_']),
    m('Get', throws=True, ens=cases('exc is None && r == v', 'exc is LogicError')),
    m('GetError', throws=True, ens=cases('exc is LogicError', 'exc is None && r == e')),
    m('Expect', params=['message'], throws=True, ens=cases('exc is None && r == v', 'exc is RuntimeError'), req=[WF, 'sok(message.data_)']),
    m('ExpectError', params=['message'], throws=True, ens=cases('exc is RuntimeError', 'exc is None && r == e')),
    m('Map', params=['func'], glob=G, throws=True,
      ens=cases(called('VpMap', 'v', 'Val', 'exc is None && r == eo_ok(VpMap_val(func, v))'), 'calls1 == calls && exc == VpErr_copy(e) && (exc is None ==> r == eo_err(e))')),
    m('MapError', params=['func'], glob=G, throws=True,
      ens=cases('calls1 == calls && exc == VpVal_copy(v) && (exc is None ==> r == em_ok(v))', called('VpEMap', 'e', 'Err', 'exc is None && r == em_err(VpEMap_val(func, e))'))),
    m('UnwrapOr', params=['value'], throws=True, ens=cases('exc == VpVal_copy(v) && (exc is None ==> r == v)', 'exc == VpVal_copy(value) && (exc is None ==> r == value)')),
    m('UnwrapOrElse', params=['func'], glob=G, throws=True,
      ens=cases('calls1 == calls && exc == VpVal_copy(v) && (exc is None ==> r == v)', called('VpEVal', 'e', 'Err', 'exc is None && r == VpEVal_val(func, e)'))),
    m('UnwrapOrDefault', '() const', ens=cases('r == v', 'r == VpVal_default()')),
    m('UnwrapOrDefault', '(const ValueType &) const', params=['default_value'], ens=cases('r == v', 'r == default_value')),
    m('Filter', params=['func'], glob=G, throws=True,
      ens=cases(called('VpPred', 'v', 'Val', 'if VpPred_val(func, v) { exc == VpVal_copy(v) && (exc is None ==> r == ev_ok(v)) } else { exc is None && r == ev_err(VpErr_default()) }'), SAME_E)),
    m('Fold', params=['init', 'f'], glob=G, throws=True,
      ens=cases('calls1 == calls.push(Call::Fold(init, v)) && exc == VpFold_exc(f, init, v) && (exc is None ==> r == VpFold_val(f, init, v))',
                'calls1 == calls && exc == VpOut_copy(init) && (exc is None ==> r == init)')),
    m('OnError', params=['func'], glob=G, throws=True, ens=cases(SAME_V, called('VpSee', 'e', 'Err', 'exc == VpErr_copy(e) && (exc is None ==> r == ev_err(e))'))),
    m('Customize', params=['func'], glob=G, throws=True, ens=['calls1 == calls.push(Call::Whole(this))', 'exc == VpWhole_exc(func, this)', 'exc is None ==> r == VpWhole_val(func, this)']),
    m('Inspect', params=['value_func', 'error_func'], glob=G, throws=True,
      ens=cases('calls1 == calls.push(Call::Val(v)) && exc == VpMap_exc(value_func, v) && (exc is None ==> r == VpMap_val(value_func, v))',
                'calls1 == calls.push(Call::Err(e)) && exc == VpEMap_exc(error_func, e) && (exc is None ==> r == VpEMap_val(error_func, e))')),
]
for n in ('AndThen', 'Then'):
    EXP.append(m(n, params=['func'], glob=G, throws=True, ens=cases(called('VpBind', 'v', 'Val', 'exc is None && r == VpBind_val(func, v)'), SAME_E)))
for n in ('OrElse', 'CatchError'):
    EXP.append(m(n, params=['func'], glob=G, throws=True, ens=cases(SAME_V, called('VpEBind', 'e', 'Err', 'exc is None && r == VpEBind_val(func, e)'))))
EXP += [
    C('MakeCorrect', params=['value'], ensures=['r == ev_ok(value)'], throws=False),
    C('MakeError', params=['error'], targs=['Caitlyn::VpErr'], throws=True, ensures=['exc == VpErr_copy(error)', 'exc is None ==> r.error_ == error']),
    C('MakeError', 'Unexpected<String> (const String &)', params=['error'], ensures=['r.error_.data_ =~= error.data_']),
    C('MakeError', 'Unexpected<String> (const char *)', params=['error'], requires='cstr_ok(error)', throws=True,
      ensures=['exc is None <==> u8ok(cstr_bytes(error))', 'exc is None ==> r.error_.data_ =~= u8split(cstr_bytes(error))']),
    C('CaitlynOps::operator==', 'bool (const Caitlyn::Unexpected<VpErr> &, const Caitlyn::Unexpected<VpErr> &)', params=['lhs', 'rhs'], throws=True, ensures=['exc == VpErr_eq_exc(lhs.error_, rhs.error_)', 'exc is None ==> r == VpErr_eq(lhs.error_, rhs.error_)']),
    C('CaitlynOps::operator!=', 'bool (const Caitlyn::Unexpected<VpErr> &, const Caitlyn::Unexpected<VpErr> &)', params=['lhs', 'rhs'], throws=True, ensures=['exc == VpErr_eq_exc(lhs.error_, rhs.error_)', 'exc is None ==> r == !VpErr_eq(lhs.error_, rhs.error_)']),
    C(f'{UE}::Get', ensures=['r == this.error_']),
]
ROOTS = [c for c in EXP if not c.qual.startswith((EO, EM))]
