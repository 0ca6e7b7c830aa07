"""std::fstream over a ghost file system: `fs.files` maps a name to the file's bytes; a stream is open on a name at a position"""
from cxxast import ExtractError
from xlate import V, L, MAXLEN

VOID, BOOL, POS = ('void',), ('bool',), ('int', 64, True)
FS = ('fstream',)
FLAGS = ('in', 'out', 'app', 'trunc', 'binary', 'ate')


def fsvar(x):
    b = x.lookup('fs')
    if b is None:
        raise ExtractError('file stream used in a function without a file system')
    return b.rust


def flags(n):
    """names of the flags in an open mode"""
    out = set()

    def go(m):
        k = m.get('kind')
        if k == 'DeclRefExpr':
            name = m.get('referencedDecl', {}).get('name')
            if name == 'operator|':
                return
            if name not in FLAGS:
                raise ExtractError(f'open mode {name}')
            out.add(name)
        elif k == 'MemberExpr':
            if m.get('name') not in FLAGS:
                raise ExtractError('open mode')
            out.add(m['name'])
        elif k in ('ImplicitCastExpr', 'ParenExpr', 'CXXOperatorCallExpr', 'CXXStaticCastExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXConstructExpr'):
            for y in m.get('inner', []):
                if y:
                    go(y)
        elif k == 'BinaryOperator' and m.get('opcode') == '|':
            for y in m['inner']:
                go(y)
        else:
            raise ExtractError(f'open mode {k}')
    go(n)
    if 'ate' in out:
        raise ExtractError('open mode ate')
    return out


def do_open(x, obj, args, dflt):
    fs = fsvar(x)
    name = x.rv(args[0])
    fl = flags(args[1]) if len(args) > 1 else dflt
    b = lambda k: 'true' if k in fl else 'false'
    nm = x.fresh('fn')
    x.emit('let', nm, 'Seq<u8>', f'upto_nul({x.lib.s_of(x, name)})')
    f0 = x.fresh('f')
    x.emit('let', f0, 'FStr', x.rd(obj.p))
    k = x.fresh('ok')
    x.emit('let', k, 'bool', f'!{f0}.open && fs_can({fs}, {nm}, {b("in")}, {b("app")}, {b("trunc")})')
    new = 'Seq::<u8>::empty()' if 'trunc' in fl else f'fs_get({fs}, {nm})'
    x.emit('set', fs, f'(if {k} {{ fs_set({fs}, {nm}, {new}) }} else {{ {fs} }})')
    x.assign(obj, f'(if {k} {{ FStr {{ open: true, name: {nm}, app: {b("app")}, fail: false, eof: false, unsaved: false, pos: 0 }} }} else {{ FStr {{ fail: true, ..{f0} }} }})')


def construct(x, t, args, dflt):
    p = x.fresh('fst')
    x.emit('letmut', p, 'FStr', 'fstr_new()')
    l = L(('v', p), FS)
    if args:
        do_open(x, l, args, dflt)
    return l


def buffer_at(x, a):
    """the sequence of bytes a pointer points into, and where"""
    v = x.expr(a)
    if isinstance(v, V) and v.t[0] == 'addr' and isinstance(v.extra, L) and v.extra.p[0] == 'i':
        return v.extra.p[1], f'{v.extra.p[2]}'
    if isinstance(v, V) and isinstance(v.extra, tuple) and v.extra and v.extra[0] == 'bufof':
        return v.extra[1], '0'
    raise ExtractError('read into an unknown buffer')


def put(x, p, val):
    """bytes sent to a file stream"""
    fs = fsvar(x)
    f, t, g = x.fresh('f'), x.fresh('t'), x.fresh('fs')
    x.emit('let', f, 'FStr', x.rd(p))
    x.emit('let', t, 'Seq<u8>', val)
    x.emit('let', g, 'FS', fs)
    x.emit('set', fs, f'fs_put({g}, {f}, {t})')
    x.assign(L(p, FS), f'fstr_put({g}, {f}, {t})')


def flush(x, obj):
    f = x.rd(obj.p)
    x.assign(obj, f'FStr {{ unsaved: {f}.unsaved && {f}.fail, ..{f} }}')


def drain(x, obj):
    """everything left in a stream"""
    if not isinstance(obj, L):
        raise ExtractError('buffer of a temporary stream')
    b, f0 = x.fresh('all'), x.fresh('f')
    if obj.t == FS:
        fs = fsvar(x)
        x.emit('let', f0, 'FStr', x.rd(obj.p))
        x.emit('let', b, 'Seq<u8>', f'fs_rest({fs}, {f0})')
        x.assign(obj, f'FStr {{ pos: {f0}.pos + {b}.len(), ..{f0} }}')
    else:
        x.emit('let', b, 'Seq<u8>', x.rd(obj.p))
        x.assign(obj, 'Seq::<u8>::empty()')
    x.emit('assume', f'{b}.len() <= {MAXLEN}')
    return b


def hook_method(x, obj, name, args, n):
    o = x.read(obj) if not (isinstance(obj, L) and obj.t[0] == 'ostream') else None
    if isinstance(obj, L) and obj.t[0] == 'ostream' and obj.p[0] == 'sink':
        obj = L(obj.p[1], FS)
        o = x.read(obj)
    if o is None or o.t != FS:
        return None
    if not isinstance(obj, L):
        raise ExtractError('method of a temporary file stream')
    fs, f = fsvar(x), x.rd(obj.p)
    unit = V('()', VOID)
    if name == 'open':
        do_open(x, obj, args, {'in', 'out'})
        return unit
    if name == 'rdbuf':
        return None
    if name == 'is_open':
        return V(f'{f}.open', BOOL)
    if name == 'eof':
        return V(f'{f}.eof', BOOL)
    if name == 'fail':
        return V(f'{f}.fail', BOOL)
    if name == 'bad':
        return V('false', BOOL)
    if name == 'good':
        return V(f'(!{f}.fail && !{f}.eof)', BOOL)
    if name in ('operator bool', 'operator!'):
        return V(f'{"!" if name.endswith("bool") else ""}{f}.fail', BOOL)
    if name == 'close':
        x.assign(obj, f'(if {f}.open {{ FStr {{ open: false, unsaved: false, ..{f} }} }} else {{ FStr {{ fail: true, ..{f} }} }})')
        return unit
    if name in ('flush', 'sync'):
        flush(x, obj)
        return obj
    if name in ('clear', 'setstate'):
        bits = {'fail': 'false', 'eof': 'false'} if name == 'clear' else {'fail': f'{f}.fail', 'eof': f'{f}.eof'}
        for a in args:
            txt = set()

            def go(m):
                if m.get('kind') == 'DeclRefExpr' or m.get('kind') == 'MemberExpr':
                    txt.add(m.get('referencedDecl', {}).get('name') or m.get('name'))
                for y in m.get('inner', []):
                    if y:
                        go(y)
            go(a)
            txt.discard('operator|')
            for w in txt:
                if w == 'goodbit':
                    continue
                if w not in ('failbit', 'eofbit'):
                    raise ExtractError(f'stream state {w}')
                bits[w[:-3]] = 'true'
        x.assign(obj, f'FStr {{ fail: {bits["fail"]}, eof: {bits["eof"]}, ..{f} }}')
        return unit
    if name in ('seekg', 'seekp'):
        off = x.lib.iv(x.rv(args[0]))
        base = '0int'
        if len(args) > 1:
            d = args[1]
            while d.get('kind') not in ('DeclRefExpr', 'MemberExpr'):
                inner = [y for y in d.get('inner', []) if y]
                if not inner:
                    raise ExtractError('seek direction')
                d = inner[0]
            d = d.get('referencedDecl', {}).get('name') or d.get('name')
            if d not in ('beg', 'end', 'cur'):
                raise ExtractError(f'seek direction {d}')
            if d == 'end':
                x.emit('assume', f'fs_get({fs}, {f}.name).len() <= {MAXLEN}')
            base = {'beg': '0int', 'end': f'fs_get({fs}, {f}.name).len() as int', 'cur': f'{f}.pos'}[d]
        x.assign(obj, f'fstr_{name}({f}, {base} + ({off}))')
        return obj
    if name in ('tellg', 'tellp'):
        f0 = x.fresh('f')
        x.emit('let', f0, 'FStr', f)
        x.emit('assume', f'{f0}.pos <= 0x7fff_ffff_ffff_ffff')
        if name == 'tellg':
            x.assign(obj, f'(if {f0}.eof {{ FStr {{ fail: true, ..{f0} }} }} else {{ {f0} }})')
        r = x.fresh('at')
        x.emit('let', r, 'i64', f'(if {f0}.fail || !{f0}.open{" || " + f0 + ".eof" if name == "tellg" else ""} {{ -1i64 }} else {{ {f0}.pos as i64 }})')
        return V(r, POS)
    if name in ('get', 'peek') and (name == 'peek' or not args):
        x.emit('assume', f'fs_get({fs}, {f}.name).len() < {MAXLEN}')
        f0, r = x.fresh('f'), x.fresh('ch')
        x.emit('let', f0, 'FStr', f)
        x.emit('let', r, 'i32', f'(if fstr_has({fs}, {f0}) {{ fs_get({fs}, {f0}.name)[{f0}.pos] as i32 }} else {{ -1i32 }})')
        x.assign(obj, f'fstr_get({fs}, {f0}, {"false" if name == "peek" else "true"})')
        return V(r, ('int', 32, True))
    if name == 'get' and len(args) == 1:
        c = x.expr(args[0])
        if not isinstance(c, L) or c.t[0] != 'char':
            raise ExtractError('get into a buffer')
        x.emit('assume', f'fs_get({fs}, {f}.name).len() < {MAXLEN}')
        f0 = x.fresh('f')
        x.emit('let', f0, 'FStr', f)
        x.assign(c, f'(if fstr_has({fs}, {f0}) {{ fs_get({fs}, {f0}.name)[{f0}.pos] }} else {{ {x.rd(c.p)} }})')
        x.assign(obj, f'fstr_get({fs}, {f0}, true)')
        return obj
    if name == 'read' and len(args) == 2:
        p, at = buffer_at(x, args[0])
        k = x.lib.iv(x.rv(args[1]))
        f0, b0, m = x.fresh('f'), x.fresh('b'), x.fresh('n')
        x.emit('let', f0, 'FStr', f)
        x.emit('let', b0, 'Seq<u8>', x.rd(p))
        x.emit('let', m, 'int', k)
        x.oblig(f'{m} <= 0 || {at} + {m} <= {b0}.len()', 'the bytes read fit into the buffer')
        x.assign(L(p, ('vec', ('char',))), f'fs_read({fs}, {f0}, {b0}, {at} as int, {m})')
        x.assign(obj, f'fstr_read({fs}, {f0}, {m})')
        return obj
    raise ExtractError(f'file stream method {name}')


def getline(x, a, item, d):
    fs, f0, s0 = fsvar(x), x.fresh('f'), x.fresh('s')
    x.emit('assume', f'fs_get({fs}, {x.rd(a.p)}.name).len() < {MAXLEN}')
    x.emit('let', f0, 'FStr', x.rd(a.p))
    x.emit('let', s0, 'Seq<u8>', x.rd(item.p))
    x.assign(item, f'(if {f0}.open && !{f0}.fail && !{f0}.eof {{ fs_line({fs}, {f0}, {d}) }} else {{ {s0} }})')
    x.assign(a, f'fstr_line({fs}, {f0}, {d})')
    return a
