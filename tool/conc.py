"""steps of one thread among others: every use of an atomic, new and delete acts on this thread's view of the heap
(contracts/conc.rs), after an arbitrary number of steps of the other threads"""
from cxxast import ExtractError
from xlate import V

SZ = ('int', 64, False)
ORD = {'relaxed': (0, 0), 'consume': (0, 0), 'acquire': (1, 0), 'release': (0, 1), 'acq_rel': (1, 1), 'seq_cst': (1, 1)}


def order(n):
    """(acquire, release) of a memory order argument; seq_cst when it is the default"""
    if n is None or n.get('kind') == 'CXXDefaultArgExpr':
        return ORD['seq_cst']
    found = set()

    def walk(y):
        rd = y.get('referencedDecl') or {}
        nm = rd.get('name') or y.get('name') or ''
        if nm.startswith('memory_order'):
            found.add(nm.replace('memory_order_', ''))
        for z in y.get('inner', []):
            if z:
                walk(z)
    walk(n)
    found = {f for f in found if f in ORD}
    if len(found) != 1:
        raise ExtractError('memory order is not a constant')
    return ORD[found.pop()]


def step(x, h, op, *args, cond=None):
    """one step of this thread, which keeps what it relies on"""
    a = ', '.join((h,) + args)
    if cond:
        x.emit('proof', f'if {cond} {{ lemma_{op}({a}); }}')
        x.emit('set', h, f'if {cond} {{ op_{op}({a}) }} else {{ {h} }}')
    else:
        x.emit('proof', f'lemma_{op}({a});')
        x.emit('set', h, f'op_{op}({a})')


def env(x, h):
    """the other threads run"""
    x.oblig(f'cwf({h})', 'what this thread relies on is still so')
    g = x.fresh('any')
    x.emit('any', g, 'CHeap')
    x.emit('assume', f'env({h}, {g})')
    x.emit('set', h, g)


def delete(lib, x, v):
    h = lib.heap(x)
    p = lib.bind(x, v.e, 'int', 'p')
    env(x, h)
    k = 'cnt' if v.t[1][0] == 'atomic' else 'obj'
    x.oblig(f'{p} == 0 || {h}.{"sole" if k == "cnt" else "own"}.contains({p})', 'deletes only what no other thread can reach any more, after synchronising with all of them')
    step(x, h, 'del_' + k, p, cond=f'{p} != 0')
    return V('()', ('void',))


def atomic(lib, x, obj, name, args, n):
    h = lib.heap(x)
    p = lib.bind(x, x.read(obj).e, 'int', 'p')
    if name.startswith('operator ') or name == 'load':
        env(x, h)
        x.oblig(f'hold({h}, {p}) || one({h}, {p})', 'the counter used is alive')
        o = x.fresh('old')
        x.emit('let', o, 'u64', f'{h}.cnt[{p}]')
        return V(o, SZ)
    if name in ('fetch_add', 'operator+=', 'operator++', 'fetch_sub', 'operator-=', 'operator--'):
        add = name in ('fetch_add', 'operator+=', 'operator++')
        one = name in ('operator++', 'operator--')
        k = '1u64' if one else lib.bind(x, x.rv(args[0]).e, 'u64', 'k')
        acq, rel = order(args[1] if len(args) > 1 else None) if name.startswith('fetch') else ORD['seq_cst']
        env(x, h)
        o = x.fresh('old')
        x.emit('let', o, 'u64', f'{h}.cnt[{p}]')
        if add:
            x.oblig(f'op_add_pre({h}, {p}, {k})', 'becomes an owner beside one that stays')
            x.emit('assume', f'{h}.cnt[{p}] as int + {k} as int <= u64::MAX')
            step(x, h, 'add', p, k)
        else:
            x.oblig(f'op_sub_pre({h}, {p}, {k})', 'lets go only of owners this thread has')
            x.oblig('true /**/' if rel else f'{h}.sole.contains({p})', 'what was done with the object is published before letting go (release order)')
            step(x, h, 'sub', p, k, 'true' if acq else 'false')
        new = f'{h}.cnt[{p}]'
        if name.startswith('fetch') or one and args:
            return V(o, SZ)
        w = x.fresh('new')
        x.emit('let', w, 'u64', new)
        return V(w, SZ)
    if name in ('store', 'operator=', 'exchange'):
        k = lib.bind(x, x.rv(args[0]).e, 'u64', 'k')
        env(x, h)
        x.oblig(f'{h}.sole.contains({p})', 'overwrites only a counter that no other thread can reach')
        o = x.fresh('old')
        x.emit('let', o, 'u64', f'{h}.cnt[{p}]')
        step(x, h, 'store', p, k)
        return V(o, SZ) if name == 'exchange' else V('()', ('void',))
    raise ExtractError(f'atomic {name}')


def new(lib, x, t, val):
    h = lib.heap(x)
    v = lib.bind(x, f'({val} as u64)', 'u64', 'v')
    env(x, h)
    p = x.anyv(t)
    x.emit('assume', f'op_new_pre({h}, {p})')
    step(x, h, 'new', p, v)
    return V(p, t)


def fence(lib, x, args):
    h = lib.heap(x)
    acq, rel = order(args[0])
    if not acq:
        raise ExtractError('a fence that does not acquire')
    env(x, h)
    step(x, h, 'fence')
    return V('()', ('void',))
