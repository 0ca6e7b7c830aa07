"""pointers that own what they point to: such a pointer is a value `Own::Null`, `Own::Live(object)` or `Own::Dead` (deleted).

A container of owning pointers then is a tree of values.  Deleting through a path runs the destructor's contract on the object there and
leaves `Own::Dead`; what is dropped while it is still alive is an obligation (no leak), and so is every use of one that is not alive."""
from cxxast import ExtractError
from xlate import V, L

BOOL = ('bool',)


def has_own(t):
    return isinstance(t, tuple) and (t[0] == 'own' or any(has_own(y) for y in t[1:] if isinstance(y, tuple)))


def alive(e, t):
    """the element expression `e` of type t still owns a living object"""
    if t[0] == 'own':
        return f'{e} is Live'
    if t[0] == 'pair':
        return ' || '.join([f'({y})' for y in (alive(f'{e}.first', t[1]), alive(f'{e}.second', t[2])) if y]) or None
    if t[0] == 'vec' and has_own(t):
        raise ExtractError('nested container of owning pointers')
    return None


def dropped(x, s, t, lo='0', hi=None):
    """elements lo..hi of the sequence s are dropped"""
    a = alive(f'{s}[_k]', t)
    if a:
        x.oblig(f'forall|_k: int| #![trigger {s}[_k]] {lo} <= _k < {hi or s + ".len()"} ==> !({a})', 'no living object is dropped without being deleted')


def new_expr(x, n, inner):
    t = x.T.of(n)
    if t[0] != 'own':
        return None
    c = [y for y in n.get('inner', []) if y]
    if len(c) != 1:
        raise ExtractError('new of an owned object')
    v = x.fresh('new')
    x.emit('let', v, x.T.vt(t[1]), x.init_value(c[0], t[1]))
    return V(f'Own::Live({v})', t)


def delete_expr(x, n):
    a = [y for y in n.get('inner', []) if y][0]
    if x.T.of(a)[0] != 'own':
        return None
    v = x.expr(a)
    if not isinstance(v, L):
        raise ExtractError('delete of an owning pointer that is not in a known place')
    v = L(x.freeze(v.p), v.t)
    x.oblig(f'!({x.rd(v.p)} is Dead)', 'what is deleted is alive')
    with x.sub() as sb:
        x.drop_obj(L(('u', v.p, 'Live', 'Own'), v.t[1]))
    x.emit('if', f'{x.rd(v.p)} is Live', sb.items, [])
    x.assign(v, f'(if {x.rd(v.p)} is Live {{ Own::Dead }} else {{ {x.rd(v.p)} }})')
    return V('()', ('void',))


def deref(x, v, n):
    rv = whole(x, v)
    if rv.t[0] != 'own':
        return None
    x.oblig(f'{rv.e} is Live', 'the object dereferenced is alive')
    if isinstance(v, L):
        return L(('u', x.freeze(v.p), 'Live', 'Own'), rv.t[1])
    return V(f'{rv.e}->Live_0', rv.t[1])


def whole(x, v):
    return v if isinstance(v, V) else V(x.rd(v.p), v.t)


def dropped_from(lib, x, o, lo='0', hi=None):
    if o.t[0] == 'vec' and has_own(o.t):
        dropped(x, lib.bind(x, o.e, x.T.vt(o.t)), o.t[1], lo, hi)


def declare(x, d, t, ini):
    """a local pointer: another name for the place it was taken from"""
    v = x.expr(ini[0]) if ini else None
    if not isinstance(v, L):
        raise ExtractError('a local variable owns an object')
    b = x.declare(d['name'], t)
    b.path, b.src, b.extra = x.freeze(v.p), v.src, ('ownalias',)


def assign(x, l, r, ln):
    if l.t[0] != 'own' or not isinstance(l, L) or r.t not in (l.t, ('null',)) or ln['kind'] == 'DeclRefExpr':
        raise ExtractError('assignment of owning pointers')
    x.oblig(f'!({x.rd(l.p)} is Live)', 'no living object is dropped without being deleted')
    x.assign(l, r.e if r.t == l.t else 'Own::Null')
    return l


def ptrcmp(x, op, a, b):
    if isinstance(a, L) and a.t[0] != 'own':
        return None
    va = whole(x, a)
    if op == 'bool' and va.t[0] == 'own':
        return V(f'!({va.e} is Null)', BOOL)
    vb = whole(x, b) if b is not None else None
    if vb is not None and va.t[0] == 'null':
        va, vb = vb, va
    if vb is not None and va.t[0] == 'own' and vb.t[0] == 'null':
        return V(f'({"!" if op == "!=" else ""}({va.e} is Null))', BOOL)
    return None


LVSEG = None


def parse_lv(s):
    """a place relative to *this: fields, union members, [] for the index the function returns, * for what a pointer owns"""
    import re
    out = re.findall(r'\.\w+|\[\]|\*', s)
    if ''.join(out) != s:
        raise ExtractError('lv ' + s)
    return out


def walk(x, path, p, t, idx, req):
    for seg in parse_lv(path):
        here = x.rd(p)
        if seg == '[]':
            p, t = ('i', p, idx), x.T.elem(t)
            req.append(f'0 <= {idx} < {here}.len()')
        elif seg == '*':
            req.append(f'{here} is Live')
            p, t = ('u', p, 'Live', 'Own'), t[1]
        elif t[0] == 'pair':
            p, t = ('f', p, seg[1:], 'Pair'), t[1] if seg == '.first' else t[2]
        else:
            l = x.field(L(p, t), t[1], next((n for (c, n), y in x.T.frename.items() if c == t[1] and y == seg[1:]), seg[1:]), raw=True)
            if l.p[0] == 'u':
                req.append(f'{here} is {l.p[2]}')
            p, t = l.p, l.t
    return L(p, t)


def lv_path(x, c, this, idx):
    return walk(x, c.lv, this.p, this.t, idx, [])


def alias_path(x, sig):
    """an operand that lies inside another: the object at the given place, at some index"""
    sig.append(('at__', 'int'))
    return walk(x, x.alias[2], ('v', x.rust_of.get(x.alias[0], x.alias[0])), x.this.t, 'at__', x.alias_req).p


def alias_text(x, this):
    return x.rd(walk(x, x.alias[2], ('v', this), x.this.t, 'at__', []).p)


def lv_index(x, c, l):
    """the index of the place `l` when it is the place the contract names"""
    p = l.p
    idx = None
    for seg in reversed(parse_lv(c.lv)):
        ok = p[0] == {'[]': 'i', '*': 'u'}.get(seg, None) or seg[0] == '.' and p[0] in ('f', 'u') and p[2] == seg[1:]
        if not ok:
            raise ExtractError(f'reference returned to another place than the contract names: {p}')
        if seg == '[]':
            idx = p[2]
        p = p[1]
    if p != x.this.p:
        raise ExtractError('reference returned to another object')
    return idx or '0int'
