"""character arrays from new[], and static members of a class.

A C string value carries `own`: it is the start of an array that new[] gave to the code under proof and that nobody else holds.  Writing
through it and deleting it need `own`; storing it in a container moves `own` there.  A static data member named in `lib.statics` is the global
of that name in the contracts; a pointer to a class in `lib.single` points to the one object of that class, or is null."""
import re

from cxxast import ExtractError
from xlate import V, L

VOID, CSTR, BOOL = ('void',), ('cstr',), ('bool',)


def install(lib, statics, single):
    lib.statics, lib.T_single = statics, single
    lib.hooks_global.append(static_member)
    lib.hooks_new.insert(0, new_chars)
    lib.hooks_std['sync_with_stdio'] = lambda x, args, n: V(x.anyv(BOOL), BOOL)
    lib.hooks_std['strcpy'] = lambda x, args, n: copy(x, args, 'strcpy')
    for f in ('memcpy', 'memmove', 'strncpy', 'copy', 'copy_n'):
        lib.hooks_std[f] = lambda x, args, n, f=f: copy(x, args, f)


def adapt(line):
    """the model of a C string with its two more fields"""
    for a, b in (('pub struct CStr { pub buf: Seq<u8>, pub off: int }', 'pub struct CStr { pub buf: Seq<u8>, pub off: int, pub own: bool, pub raw: bool }'),
                 ('bool { 0 <= c.off <= c.buf.len() }', 'bool { 0 <= c.off <= c.buf.len() && !c.raw }')):
        if 'CStr' in line and a in line:
            line = line.replace(a, b)
    return re.sub(r'(CStr \{ buf: [^{}]*?, off: (?:0|-1)) \}', r'\1, own: false, raw: false }', line.replace('off: c.off + n }', 'off: c.off + n, own: c.own, raw: c.raw }'))


def static_member(x, rd, n):
    name = rd.get('name')
    t = x.lib.statics.get(name)
    if t is None:
        return None
    if t[0] != 'single':
        raise ExtractError(f'static member {name} used in a function whose contract does not mention it')
    starts(x, name)
    return V('true', t)


def starts(x, name):
    """the static member starts as the contracts assume"""
    init = initial(x, name)
    if x.lib.statics[name][0] == 'single':
        if init['kind'] != 'CXXNewExpr':
            raise ExtractError(f'initialiser of {name}')
    else:
        x.oblig(f'!({x.rv(init).e})', f'{name} starts false')


def initial(x, name):
    """the initialiser in the definition of a static member"""
    vs = [v for v in x.ast.vars.values() if v.get('name') == name and [y for y in v.get('inner', []) if y.get('kind', '').endswith(('Expr', 'Literal', 'Operator'))]]
    if len(vs) != 1:
        raise ExtractError(f'static member {name} without one initialiser')
    e = [y for y in vs[0]['inner'] if y.get('kind', '').endswith(('Expr', 'Literal', 'Operator'))][-1]
    while e['kind'] in ('ExprWithCleanups', 'ParenExpr', 'InitListExpr'):
        e = e['inner'][0]
    return e


def object_of(x, v):
    """the object that a pointer to the only object of its class points to"""
    x.oblig(v.e, 'the pointer is not null')
    b = x.lookup('the_' + v.t[1])
    if b is None:
        raise ExtractError(f'the only {v.t[1]} used in a function whose contract does not mention it')
    return L(('v', b.rust), ('cls', v.t[1]))


def new_chars(x, n, inner):
    if not n.get('isArray') or x.T.of(n) != CSTR:
        return None
    k = x.lib.iv(x.rv(inner[0]))
    x.oblig(f'{k} >= 1', 'new char[n] of at least one byte')
    b = x.fresh('raw')
    x.emit('let', b, 'CStr', x.anyv(CSTR))
    x.emit('assume', f'{b}.own && {b}.raw && {b}.off == 0 && {b}.buf.len() == {k} - 1')
    return V(b, CSTR)


def place(x, a):
    while a['kind'] in ('ImplicitCastExpr', 'ParenExpr', 'CXXConstCastExpr', 'CXXStaticCastExpr', 'CStyleCastExpr'):
        a = [y for y in a['inner'] if y][0]
    l = x.expr(a)
    if not isinstance(l, L) or l.t != CSTR:
        raise ExtractError('character array that is not in a known place')
    return L(x.freeze(l.p), l.t)


def copy(x, args, f):
    """strcpy, memcpy and their relatives into an array of our own"""
    std = f in ('copy', 'copy_n')
    end = args[1] if f == 'copy' else None
    if std:
        if len(args) != 3:
            raise ExtractError('std::copy with a policy')
        args = [args[2], args[0], args[1]]
    dst = place(x, args[0])
    a = args[1]
    while a['kind'] == 'ImplicitCastExpr' and a.get('castKind') in ('BitCast', 'NoOp'):
        a = [y for y in a['inner'] if y][0]
    a = x.rv(a)
    if a.t != CSTR:
        raise ExtractError(f'copy of {a.t}')
    s = x.lib.bind(x, a.e, 'CStr', 'src')
    if f == 'strcpy':
        x.oblig(f'cstr_ok({s})', 'C string argument is readable up to its terminator')
        k = f'(cstr_bytes({s}).len() + 1)'
    else:
        if end is not None:
            e = x.rv(end)
            x.oblig(f'{e.e}.buf == {s}.buf && {s}.off <= {e.e}.off', 'std::copy gets one range')
            k = x.lib.bind(x, f'({e.e}.off - {s}.off)', 'int', 'n')
        else:
            k = x.lib.bind(x, x.lib.iv(x.rv(args[2])), 'int', 'n')
        x.emit('proof', f'if cstr_ok({s}) {{ lemma_nulpos({s}.buf, {s}.off); }}')
        if f == 'strncpy':
            x.oblig(f'cstr_ok({s})', 'C string argument is readable up to its terminator')
            t = x.fresh('src')
            x.emit('let', t, 'CStr', f'cstr_padded({s}, {k})')
            s = t
        x.oblig(f'0 <= {s}.off && {s}.off + {k} <= {s}.buf.len() + 1 && !{s}.raw', 'memcpy reads inside its source')
    d = x.fresh('dst')
    x.emit('let', d, 'CStr', x.rd(dst.p))
    x.oblig(f'{d}.own && {d}.off == 0 && {k} <= {d}.buf.len() + 1', 'the copy goes to an array of our own and fits into it')
    x.assign(dst, f'cstr_copy({d}, {s}, {k} as int)')
    if std:
        v = x.rd(dst.p)
        return V(f'(CStr {{ off: {k} as int, own: false, ..{v} }})', CSTR)
    return V(x.rd(dst.p), CSTR)


def put(x, ln, r):
    """p[i] = c and *p = c"""
    while ln['kind'] == 'ParenExpr':
        ln = ln['inner'][0]
    if ln['kind'] == 'ArraySubscriptExpr':
        a, i = ln['inner']
    elif ln['kind'] == 'UnaryOperator' and ln['opcode'] == '*':
        a, i = ln['inner'][0], None
    else:
        return None
    if not x.lib.T_single or x.T.of(a) != CSTR:
        return None
    i = x.rv(i).e if i else '0int'
    dst = place(x, a)
    d = x.fresh('dst')
    x.emit('let', d, 'CStr', x.rd(dst.p))
    x.oblig(f'{d}.own && {d}.off == 0 && 0 <= {i} <= {d}.buf.len()', 'the byte written lies in an array of our own')
    x.assign(dst, f'cstr_put({d}, {i} as int, {r.e})')
    return r


def delete_chars(x, n):
    a = [y for y in n.get('inner', []) if y][0]
    if x.T.of(a) != CSTR:
        return None
    if not n.get('isArrayAsWritten', n.get('isArray')):
        raise ExtractError('delete of a character array without []')
    l = place(x, a)
    v = x.rd(l.p)
    x.oblig(f'{v}.off == -1 || ({v}.own && {v}.off == 0)', 'what is deleted is an array of our own')
    x.assign(l, f'CStr {{ own: false, ..{v} }}')
    return V('()', VOID)


def given(x, v):
    """a C string stored in a container takes its ownership there"""
    if isinstance(v, L) and v.t == CSTR and x.lib.T_single:
        t = x.fresh('given')
        x.emit('let', t, 'CStr', x.rd(v.p))
        x.assign(v, f'CStr {{ own: false, ..{t} }}')
        return V(t, CSTR)
    return v
