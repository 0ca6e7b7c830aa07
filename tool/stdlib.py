"""Trusted contracts of the standard library, as seen by the extractor: each call becomes an obligation (its
precondition) plus a specification-level value.  Nothing here looks at the library's code."""
import re
from cxxast import ExtractError, strip_ns
import rawmem
import stdfile
import owned
import conc
from xlate import float_key, V, L, seq_lit, MAXLEN, INTTYPES, sani, idents

SZ = ('int', 64, False)
I32 = ('int', 32, True)
PD = ('int', 64, True)
BOOL = ('bool',)
CH = ('char',)
STR = ('str',)


FLT0, FLT1 = ('flt_lit_F64(%s)' % float_key(v) for v in ('0', '1'))


class Lib:
    def __init__(self):
        self.fieldnames = {}
        self.opaque = {}
        self.hooks_member = []      # f(x, base, name, n) -> value or None
        self.hooks_call = []        # f(x, f, args, n)
        self.hooks_mcall = []       # f(x, obj, name, args, n, callee)
        self.hooks_construct = []   # f(x, t, args, ctor, n)
        self.hooks_std = {}         # name -> f(x, args, n)
        self.hooks_global = []
        self.statics, self.T_single = {}, {}    # see rawmem.py
        self.hooks_value = []
        self.hooks_deref = [owned.deref]
        self.hooks_ptrcmp = [owned.ptrcmp]
        self.owned = set()          # classes whose pointers own what they point to
        self.hooks_method = [stdfile.hook_method]
        self.file_put = stdfile.put
        self.hooks_assign = []
        self.hooks_new = [owned.new_expr]         # f(x, n, inner)
        self.addr = False           # pointers are addresses in a ghost heap (global `heap`)
        self.conc = False           # the ghost heap is shared with other threads (see conc.py)
        self.dtors = set()          # classes whose destructors are called where the language calls them

    # ---------------------------------------------------------------- hooks
    def member(self, x, b, name, n):
        for h in self.hooks_member:
            r = h(x, b, name, n)
            if r is not None:
                return r
        return None

    def user_call(self, x, f, args, n):
        for h in self.hooks_call:
            r = h(x, f, args, n)
            if r is not None:
                return r
        return None

    def member_call(self, x, obj, name, args, n, callee):
        for h in self.hooks_mcall:
            r = h(x, obj, name, args, n, callee)
            if r is not None:
                return r
        return None

    def construct(self, x, t, args, ctor, n):
        for h in self.hooks_construct:
            r = h(x, t, args, ctor, n)
            if r is not None:
                return r
        return None

    # ---- ghost heap: objects of an arbitrary class are their addresses; counters map an address to its value
    def heap(self, x):
        b = x.lookup('heap')
        if not self.addr or b is None:
            raise ExtractError('heap operation in a function without a heap')
        return b.rust

    def delete_expr(self, x, n):
        r = owned.delete_expr(x, n)
        if r is None and self.T_single:
            r = rawmem.delete_chars(x, n)
        if r is not None:
            return r
        if not self.addr:
            return None
        a = [y for y in n.get('inner', []) if y][0]
        v = x.rv(a)
        h = self.heap(x)
        if v.t[0] != 'ptr':
            raise ExtractError(f'delete of {v.t}')
        if self.conc:
            return conc.delete(self, x, v)
        k = 'cnt' if v.t[1][0] == 'atomic' else 'live'
        p = self.bind(x, v.e, 'int', 'p')
        x.oblig(f'{p} == 0 || {h}.{k}.contains{"_key" if k == "cnt" else ""}({p})', 'deletes an object that is alive')
        h0 = x.fresh('h0')
        x.emit('let', h0, 'Heap', h)
        x.emit('set', h, f'heap_del_{k}({h}, {p})')
        x.inner_drop(h0)
        return V('()', ('void',))

    def counter(self, x, v):
        h = self.heap(x)
        p = self.bind(x, x.read(v).e, 'int', 'p')
        x.oblig(f'{h}.cnt.contains_key({p})', 'the counter used is alive')
        return h, p

    def atomic_method(self, x, obj, name, args, n):
        if self.conc:
            return conc.atomic(self, x, obj, name, args, n)
        args = [a for a in args if a.get('kind') != 'CXXDefaultArgExpr']
        if name.startswith('operator '):
            name = 'load'
        h, p = self.counter(x, obj)
        old = x.fresh('old')
        x.emit('let', old, 'u64', f'{h}.cnt[{p}]')
        if name in ('fetch_add', 'fetch_sub'):
            k = x.rv(args[0])
            x.emit('set', h, f'heap_set_cnt({h}, {p}, u64_wrap({old} as int {"+" if name.endswith("add") else "-"} ({k.e} as int)))')
            return V(old, SZ)
        if name in ('operator++', 'operator--'):
            new = x.fresh('new')
            x.emit('let', new, 'u64', f'u64_wrap({old} as int {"+" if name.endswith("++") else "-"} 1)')
            x.emit('set', h, f'heap_set_cnt({h}, {p}, {new})')
            return V(old if args else new, SZ)
        if name in ('load',):
            return V(old, SZ)
        if name in ('store', 'operator='):
            k = x.rv(args[0])
            x.emit('set', h, f'heap_set_cnt({h}, {p}, {k.e} as u64)')
            return V('()', ('void',))
        if name == 'exchange':
            k = x.rv(args[0])
            x.emit('set', h, f'heap_set_cnt({h}, {p}, {k.e} as u64)')
            return V(old, SZ)
        raise ExtractError(f'atomic {name}')

    def new_addr(self, x, n, inner):
        t = x.T.of(n)
        if not self.addr or t[0] != 'ptr' or t[1][0] != 'atomic':
            return None
        c = [y for y in n.get('inner', []) if y]
        while c and c[0]['kind'] in ('CXXConstructExpr', 'InitListExpr', 'ImplicitCastExpr', 'ExprWithCleanups') and x.T.of(c[0])[0] != 'int':
            c = [y for y in c[0].get('inner', []) if y]
        val = x.rv(c[0]).e if c else '0u64'
        if self.conc:
            return conc.new(self, x, t, val)
        h = self.heap(x)
        p = x.anyv(t)
        x.emit('assume', f'{p} != 0 && !{h}.cnt.contains_key({p})')
        x.emit('set', h, f'heap_set_cnt({h}, {p}, {val} as u64)')
        return V(p, t)

    def new_expr(self, x, n, inner):
        r = self.new_addr(x, n, inner)
        if r is not None:
            return r
        for h in self.hooks_new:
            r = h(x, n, inner)
            if r is not None:
                return r
        return None

    def globalvar(self, x, rd, n):
        for h in self.hooks_global:
            r = h(x, rd, n)
            if r is not None:
                return r
        return None

    def call_value(self, x, fv, args, n):
        for h in self.hooks_value:
            r = h(x, fv, args, n)
            if r is not None:
                return r
        if fv.t == ('fnp', ('void',)):
            # an arbitrary function: may throw anything; the call and its outcome are recorded
            b = x.lookup('calls')
            if b is None:
                raise ExtractError('call of an unknown function outside a contract that records calls')
            e = x.anyv(('exc', ''))
            x.emit('set', b.rust, f'{b.rust}.push(({fv.e}, {e}))')
            with x.sub() as sb:
                x.do_throw(e)
            x.emit('if', f'!({e} is None)', sb.items, [])
            return V('()', ('void',))
        if fv.t[0] == 'fnp':
            av = [x.rv(a) for a in args]
            return V(f'({fv.e})({", ".join(a.e for a in av)})', fv.t[1])
        raise ExtractError(f'call of a value of type {fv.t}')

    def assign_special(self, x, l, r):
        return any(h(x, l, r) for h in self.hooks_assign)

    def ptr_compare(self, x, op, a, b):
        ra, rb = a, b
        # &x == this and the like: the extraction passes distinct objects (aliased variants are generated apart)
        def addr(v):
            if isinstance(v, V) and v.t[0] == 'thisptr':
                return v.extra
            if isinstance(v, V) and v.t[0] == 'addr':
                return v.extra
            return None
        pa, pb = addr(a), addr(b)
        if pa is not None and pb is not None:
            if isinstance(pa, L) and isinstance(pb, L):
                same = pa.p == pb.p
                val = same if op == '==' else not same
                return V('true' if val else 'false', BOOL, c=val)
            raise ExtractError('address comparison')
        for h in self.hooks_ptrcmp:
            r = h(x, op, a, b)
            if r is not None:
                return r
        return None

    def ptr_to_bool(self, x, v):
        for h in self.hooks_ptrcmp:
            r = h(x, 'bool', v, None)
            if r is not None:
                return r
        if self.addr and v.t[0] == 'ptr':
            return V(f'({v.e} != 0)', BOOL)
        return None

    # ---------------------------------------------------------------- helpers
    def bind(self, x, e, vt, base='s'):
        """name an expression so that it is not duplicated in the output"""
        if re.match(r'^[\w.]+$', e):
            return e
        t = x.fresh(base)
        x.emit('let', t, vt, e)
        return t

    def it_parts(self, x, v):
        """(sequence text, index text) of an iterator value"""
        if isinstance(v, V) and isinstance(v.extra, tuple) and v.extra and v.extra[0] == 'it':
            return v.extra[1], v.extra[2]
        v = x.read(v)
        e = self.bind(x, v.e, x.T.vt(v.t), 'it')
        return f'{e}.s', f'{e}.i'

    def mk_it(self, x, s, i, et, src, rev=False):
        return V(f'(Iter {{ s: {s}, i: {i} }})', ('riter' if rev else 'iter', et), src=src, extra=('it', s, i))

    def it_at(self, x, it, i, what):
        """element an iterator designates, as an lvalue when its container is known"""
        s, _ = self.it_parts(x, it)
        return s

    def deref(self, x, v, n):
        rv = v if isinstance(v, V) else V(x.rd(v.p), v.t, src=v.src, extra=None)
        if rv.t[0] in ('iter', 'riter'):
            s, i = self.it_parts(x, rv)
            x.oblig(f'0 <= {i} < {s}.len()', 'dereferenced iterator is inside the range')
            if rv.src is not None:
                k = x.fresh('k')
                c = x.rd(rv.src)
                x.oblig(f'{s}.len() == {c}.len()', 'iterator has not been invalidated')
                x.emit('let', k, 'int', i if rv.t[0] == 'iter' else f'{c}.len() - 1 - {i}')
                if rv.t[0] == 'iter':
                    x.oblig(f'0 <= {k} < {c}.len()', 'iterator still designates an element')
                return L(('i', rv.src, k), rv.t[1])
            return V(f'{s}[{i}]', rv.t[1])
        if rv.t[0] == 'addr':
            return rv.extra
        if self.addr and rv.t[0] == 'ptr':
            if rv.t[1][0] == 'atomic':
                return V(rv.e, ('atomic', SZ))
            x.oblig(f'{self.heap(x)}.live.contains({rv.e})', 'the object dereferenced is alive')
            return V(rv.e, rv.t[1])
        for h in self.hooks_deref:
            r = h(x, v, n)
            if r is not None:
                return r
        return None

    def s_of(self, x, v):
        """byte-sequence text of a str/cstr/char value used where text is expected"""
        v = x.read(v)
        if v.t[0] in ('str', 'oss'):
            return v.e
        if v.t[0] == 'cstr':
            def cut(bs):
                return seq_lit(bs[:bs.index(0)] if 0 in bs else bs)
            if isinstance(v.c, list):
                return cut(v.c)
            if isinstance(v.extra, tuple) and v.extra and v.extra[0] == 'condtext':
                return f'(if {v.extra[1]} {{ {cut(v.extra[2])} }} else {{ {cut(v.extra[3])} }})'
            x.oblig(f'cstr_ok({v.e})', 'C string argument is readable up to its terminator')
            return f'cstr_bytes({v.e})'
        if v.t[0] == 'char':
            return f'seq![{v.e}]'
        raise ExtractError(f'text value of {v.t}')

    def size_val(self, x, s):
        x.emit('assume', f'{s}.len() <= {MAXLEN}')
        return V(f'({s}.len() as u64)', SZ)

    def iv(self, v):
        return f'({v.e} as int)' if v.c is None else str(v.c)

    # ---------------------------------------------------------------- construction
    def construct_std(self, x, t, args, ctor, n):
        for h in self.hooks_construct:
            r = h(x, t, args, ctor, n)
            if r is not None:
                return r
        k = t[0]
        if args and args[-1].get('kind') == 'CXXDefaultArgExpr':
            args = [a for a in args if a.get('kind') != 'CXXDefaultArgExpr']
        if k == 'fstream' and args and x.T.of(args[0]) != t:
            q = str(n.get('type', {}).get('desugaredQualType') or n.get('type', {}).get('qualType'))
            if 'ifstream' in q:
                raise ExtractError('input file stream')
            l = stdfile.construct(x, t, args, {'out', 'trunc'} if 'ofstream' in q else {'in', 'out'})
            return x.read(l)
        av = [x.expr(a) for a in args]
        # copy/move
        if len(av) == 1 and x.read(av[0]).t == t or len(av) == 1 and k in ('iter', 'riter') and \
                x.read(av[0]).t[0] == k:
            r = x.read(av[0])
            if k in ('iter', 'riter'):
                return r
            if '&&' in ctor and not n.get('elidable') and isinstance(av[0], L):
                tmp = x.fresh('mv')
                x.emit('let', tmp, x.T.vt(t), r.e)
                x.moved_from(av[0])
                return V(tmp, t)
            if owned.has_own(t) and k == 'vec' and not n.get('elidable'):
                raise ExtractError('a container of owning pointers is copied')
            return V(r.e, t, c=r.c)
        if not av:
            return V(x.default_value(t), t)
        rv = [x.read(a) for a in av]
        if k == 'thing':
            if t[1] == 'bernoulli_distribution':
                p = rv[0].e
                x.oblig(f'ge_F64({p}, {FLT0}) && le_F64({p}, {FLT1})', 'the probability given to bernoulli_distribution lies in 0..1')
                d = x.fresh('dist')
                x.emit('let', d, x.T.vt(t), x.anyv(t))
                x.emit('assume', f'fdist_lo_F64({d}) == {p}')
                return V(d, t)
            if t[1] == 'uniform_real_distribution' and len(rv) == 2 and all(v.t[0] == 'flt' for v in rv) and rv[0].t == rv[1].t:
                ft = x.T.vt(rv[0].t)
                lo, hi = rv[0].e, rv[1].e
                x.oblig(f'le_{ft}({lo}, {hi}) && span_ok_{ft}({lo}, {hi})', 'the bounds given to uniform_real_distribution are in order and their distance is representable')
                d = x.fresh('dist')
                x.emit('let', d, x.T.vt(t), x.anyv(t))
                x.emit('assume', f'fdist_lo_{ft}({d}) == {lo} && fdist_hi_{ft}({d}) == {hi}')
                return V(d, t)
            if t[1] == 'uniform_int_distribution' and len(rv) == 2 and all(v.t[0] == 'int' for v in rv):
                lo, hi = self.iv(rv[0]), self.iv(rv[1])
                x.oblig(f'{lo} <= {hi}', 'the bounds given to uniform_int_distribution are in order')
                d = x.fresh('dist')
                x.emit('let', d, x.T.vt(t), x.anyv(t))
                x.emit('assume', f'dist_lo({d}) == {lo} && dist_hi({d}) == {hi}')
                return V(d, t)
            return V(x.anyv(t), t)
        if k == 'str':
            if len(rv) == 1:
                if rv[0].t[0] in ('cstr', 'str', 'oss'):
                    return V(self.s_of(x, rv[0]), t)
                if rv[0].t[0] in ('ilist', 'vec'):
                    return V(rv[0].e, t)
            if len(rv) == 2:
                if rv[0].t[0] == 'int' and rv[1].t[0] == 'char':
                    return V(f'Seq::new({self.iv(rv[0])} as nat, |_k: int| {rv[1].e})', t)
                if rv[0].t[0] == 'cstr' and rv[1].t[0] == 'int':
                    c = self.bind(x, rv[0].e, 'CStr', 'c')
                    x.oblig(f'0 <= {c}.off && {c}.off + {self.iv(rv[1])} <= {c}.buf.len() + 1',
                            'bytes copied from a char buffer lie inside it')
                    return V(f'cstr_take({c}, {self.iv(rv[1])})', t)
                if rv[0].t[0] in ('iter', 'riter'):
                    return V(self.it_range(x, rv[0], rv[1]), t)
        if k == 'vec':
            vt = x.T.vt(t)
            if len(rv) == 1 and rv[0].t[0] in ('vec', 'ilist'):
                return V(rv[0].e, t)
            if len(rv) == 1 and rv[0].t[0] == 'int':
                return V(f'Seq::new({self.iv(rv[0])} as nat, |_k: int| {x.default_value(t[1])})', t)
            if len(rv) == 2 and rv[0].t[0] in ('iter', 'riter'):
                return V(self.it_range(x, rv[0], rv[1]), t)
            if len(rv) == 2 and rv[0].t[0] == 'int':
                return V(f'Seq::new({self.iv(rv[0])} as nat, |_k: int| {rv[1].e})', t)
        if k == 'uset' and len(rv) == 1 and rv[0].t[0] == 'ilist' and rv[0].extra:
            return V(f'Set::<{x.T.vt(t[1])}>::empty()' + ''.join(f'.insert({v.e})' for v in rv[0].extra), t)
        if k == 'umap' and len(rv) == 1 and rv[0].t[0] in ('vec', 'ilist') and rv[0].extra:
            # the first of several entries with one key wins
            return V(f'Map::<{x.T.vt(t[1])}, {x.T.vt(t[2])}>::empty()' + ''.join(
                f'.insert({v.e}.first, {v.e}.second)' for v in reversed(rv[0].extra)), t)
        if k in ('uset',) and len(rv) == 1 and rv[0].t[0] in ('vec', 'ilist'):
            return V(f'{rv[0].e}.to_set()', t)
        if k in ('oss',) and rv[0].t[0] == 'str':
            # a stream built over text writes from its start: only the empty text leaves it ready for appending
            s = self.bind(x, rv[0].e, 'Seq<u8>')
            x.oblig(f'{s}.len() == 0', 'an output stream built over text would overwrite it')
            return V(s, t)
        if k == 'ss' and rv[0].t[0] in ('str', 'cstr'):
            return V(f'ss_new({self.s_of(x, rv[0])})', t)
        if k == 'pair' and len(rv) == 2:
            return V(f'(Pair {{ first: {rv[0].e}, second: {rv[1].e} }})', t)
        if k == 'exc':
            return V('Exc::Other', t)
        if k in ('unk', 'iter', 'riter') and len(rv) == 1:
            return rv[0]
        raise ExtractError(f'construction of {t} from {[v.t for v in rv]} at line {x.line}')

    def it_range(self, x, a, b):
        if owned.has_own(a.t):
            raise ExtractError('owning pointers are copied')
        s, i = self.it_parts(x, a)
        s2, j = self.it_parts(x, b)
        x.oblig(f'0 <= {i} <= {j} <= {s}.len()', 'iterator range is valid')
        return self.slice(s, i, j)

    def slice(self, s, i, j):
        b = s[:-len('.reverse()')] if s.endswith('.reverse()') else s
        if i == '0int' and j == f'{b}.len() as int':
            return s
        return f'{s}.subrange({i}, {j})'

    # ---------------------------------------------------------------- methods
    def std_method(self, x, obj, name, args, n):
        args = [a for a in args if a.get('kind') != 'CXXDefaultArgExpr']
        o = x.read(obj)
        t = o.t
        for h in self.hooks_method:
            r = h(x, obj, name, args, n)
            if r is not None:
                return r
        if name == 'rdbuf' and not args and t in (('istream',), ('fstream',)):
            return V('()', ('rdbuf',), extra=obj)
        if t[0] == 'thing':
            return self.thing_method(x, obj, o, name, args, n)
        if t[0] == 'atomic' or t[0] == 'ptr' and t[1][0] == 'atomic':
            return self.atomic_method(x, obj, name, args, n)
        if t == stdfile.POS and name.startswith('operator ') and not args:
            return o        # std::streampos to std::streamoff
        if t == stdfile.POS and name in ('operator+=', 'operator-=', 'operator+', 'operator-', 'operator==', 'operator!=') and len(args) == 1:
            op, b = name[8:].rstrip('=') or '==', x.rv(args[0])
            if name[8:] in ('==', '!='):
                return V(f'({self.iv(o)} {name[8:]} {self.iv(b)})', BOOL)
            r = f'({self.iv(o)} {op} {self.iv(b)})'
            x.oblig(f'-0x8000_0000_0000_0000 <= {r} <= 0x7fff_ffff_ffff_ffff', 'file position in range')
            if name.endswith('='):
                x.assign(obj, f'({r} as i64)')
                return obj
            return V(f'({r} as i64)', stdfile.POS)
        m = getattr(self, f'm_{t[0]}_{name}', None)
        if m is None and t[0] in ('str', 'vec'):
            m = getattr(self, f'm_seq_{name}', None)
        if m is None and t == ('lambda',) and name == 'operator void (*)()':
            return x.named_fn(o)
        if m is None:
            raise ExtractError(f'method {name} of {t} at line {x.line}')
        return m(x, obj, o, args, n)

    def m_exc_what(self, x, obj, o, args, n):
        e = f'lit({x.anyv(STR)})'
        x.emit('assume', f'cstr_ok({e})')
        return V(e, ('cstr',))

    def m_map_size(self, x, obj, o, args, n):
        return self.size_val(x, o.e)

    def m_map_empty(self, x, obj, o, args, n):
        return V(f'({o.e}.len() == 0)', BOOL)

    def map_index(self, x, a, t, key):
        """m[key]: the element with that key; a new one, default-made, at its place in the order otherwise"""
        self.need_eq(x, t[1])
        kt, vt = x.T.vt(t[1]), x.T.vt(t[2])
        k = self.bind(x, key.e, kt, 'key')
        i = x.anyv(('mathint',))
        m = self.bind(x, x.rd(a.p), x.T.vt(('map', t[1], t[2])), 'map')
        has = f'(exists|_j: int| 0 <= _j < {m}.len() && (#[trigger] {m}[_j]).first == {k})'
        x.emit('assume', f'{has} ==> 0 <= {i} < {m}.len() && {m}[{i}].first == {k}')
        x.emit('assume', f'!{has} ==> 0 <= {i} <= {m}.len()')
        with x.sub() as sb:
            d = x.default_value(t[2])
            x.assign(a, f'{m}.insert({i}, Pair {{ first: {k}, second: {d} }})')
        x.emit('if', f'!{has}', sb.items, [])
        el = L(('i', a.p, i), ('pair', t[1], t[2]))
        return L(('f', el.p, 'second', 'Pair'), t[2])

    def thing_method(self, x, obj, o, name, args, n):
        if name == 'time_since_epoch':
            return V(x.anyv(('thing', 'duration')), ('thing', 'duration'))
        if name == 'count':
            return V(x.anyv(PD), PD)
        raise ExtractError(f'{name} of {o.t}')

    def m_seq_size(self, x, obj, o, args, n):
        return self.size_val(x, o.e)
    m_seq_length = m_seq_size

    def m_seq_empty(self, x, obj, o, args, n):
        return V(f'({o.e}.len() == 0)', BOOL)

    def m_seq_clear(self, x, obj, o, args, n):
        owned.dropped_from(self, x, o)
        x.assign(obj, x.default_value(o.t))
        return V('()', ('void',))

    def m_seq_reserve(self, x, obj, o, args, n):
        for a in args:
            x.rv(a)
        return V('()', ('void',))
    m_seq_shrink_to_fit = m_seq_reserve

    def elem_arg(self, x, o, a):
        v = x.rv(a) if not isinstance(a, (V, L)) else x.read(a)
        et = x.T.elem(o.t)
        if v.t[0] in ('int', 'char') and et[0] in ('int', 'char') and v.t != et:
            v = x.conv(v, et)
        return v

    def m_seq_push_back(self, x, obj, o, args, n):
        v = self.elem_arg(x, o, args[0] if x.T.elem(o.t) != ('cstr',) else rawmem.given(x, x.expr(args[0])))
        o = x.read(obj)
        x.assign(obj, f'{o.e}.push({v.e})')
        return V('()', ('void',))

    def m_vec_emplace_back(self, x, obj, o, args, n):
        et = x.T.elem(o.t)
        v = None
        if len(args) == 1:
            v = rawmem.given(x, x.expr(args[0]))
            r = x.read(v)
            if r.t != et and et[0] == 'cls':
                v = V(self.convert(x, v, et).e, et)
            elif isinstance(v, L) and args[0].get('valueCategory') == 'xvalue':
                tmp = x.fresh('mv')
                x.emit('let', tmp, x.T.vt(et), r.e)
                x.moved_from(v)
                v = V(tmp, et)
            else:
                v = self.elem_arg(x, o, v)
        else:
            v = self.construct_args(x, et, args)
        o = x.read(obj)
        x.assign(obj, f'{o.e}.push({v.e})')
        return V('()', ('void',))

    def convert(self, x, v, et):
        """construct class `et` from one value, by the constructor its type selects"""
        cls = et[1]
        r = x.read(v)
        cands = []
        for f in x.ast.byqual.get('Caitlyn::' + cls + '::' + cls.split('::')[-1], []):
            ps = f.params
            if len([p for p in ps if not p.get('inner')]) <= 1 <= len(ps) and not f.tmpl:
                pt = x.T.unref(x.ptype_of(f, 0, ps[0]))
                if pt == r.t:
                    cands.append(f)
        if len(cands) != 1:
            raise ExtractError(f'emplace conversion {r.t} -> {et}')
        return x.read(x.call_user(cands[0], None, [v]))

    def construct_args(self, x, et, args):
        av = [x.expr(a) for a in args]
        if et[0] == 'pair' and len(av) == 2:
            return V(f'(Pair {{ first: {self.arg_as(x, av[0], et[1])}, second: {self.arg_as(x, av[1], et[2])} }})', et)
        if et[0] != 'cls':
            raise ExtractError(f'emplace of {et} from several arguments')
        cands = []
        for f in x.ast.byqual.get('Caitlyn::' + et[1] + '::' + et[1].split('::')[-1], []):
            if len(f.params) == len(av) and not f.tmpl and all(
                    x.T.unref(x.ptype_of(f, i, p)) == x.read(v).t for i, (p, v) in enumerate(zip(f.params, av))):
                cands.append(f)
        if len(cands) != 1:
            raise ExtractError(f'emplace of {et} from {[x.read(v).t for v in av]}')
        return x.read(x.call_user(cands[0], None, av))

    def arg_as(self, x, v, t):
        r = x.read(v)
        if r.t == t:
            if t[0] == 'cls' and x.throwing_copy(t[1]):
                raise ExtractError(f'emplace copies {t}')
            return r.e
        if t[0] == 'cls':
            return x.read(self.convert(x, v, t)).e
        if t[0] == 'str' and r.t[0] == 'cstr':
            return self.s_of(x, r)
        raise ExtractError(f'{r.t} as {t}')

    def m_seq_pop_back(self, x, obj, o, args, n):
        x.oblig(f'{o.e}.len() > 0', 'pop_back of a non-empty sequence')
        owned.dropped_from(self, x, o, f'{o.e}.len() - 1')
        x.assign(obj, f'{o.e}.drop_last()')
        return V('()', ('void',))

    def at_l(self, x, obj, o, k, et):
        if isinstance(obj, L):
            if not re.match(r'^\w+$', k):
                t = x.fresh('k')
                x.emit('let', t, 'int', k)
                k = t
            return L(('i', obj.p, k), et)
        return V(f'{o.e}[{k}]', et)

    def m_seq_back(self, x, obj, o, args, n):
        x.oblig(f'{o.e}.len() > 0', 'back of a non-empty sequence')
        return self.at_l(x, obj, o, f'{o.e}.len() - 1', x.T.elem(o.t))

    def m_seq_front(self, x, obj, o, args, n):
        x.oblig(f'{o.e}.len() > 0', 'front of a non-empty sequence')
        return self.at_l(x, obj, o, '0', x.T.elem(o.t))

    def m_seq_at(self, x, obj, o, args, n):
        i = x.rv(args[0])
        with x.sub() as sb:
            x.do_throw('Exc::OutOfRange')
        x.emit('if', f'!({self.iv(i)} < {o.e}.len())', sb.items, [])
        x.pending_check()
        return self.at_l(x, obj, o, self.iv(i), x.T.elem(o.t))

    def it_begin(self, x, obj, o, rev, end):
        src = obj.p if isinstance(obj, L) else None
        if src is None:
            s0 = self.bind(x, o.e, x.T.vt(o.t))
        else:
            s0 = o.e
        s = f'{s0}.reverse()' if rev else s0
        return self.mk_it(x, s, f'{s0}.len() as int' if end else '0int', x.T.elem(o.t), src, rev)

    def m_seq_begin(self, x, obj, o, args, n):
        return self.it_begin(x, obj, o, False, False)

    def m_seq_end(self, x, obj, o, args, n):
        return self.it_begin(x, obj, o, False, True)

    def m_seq_rbegin(self, x, obj, o, args, n):
        return self.it_begin(x, obj, o, True, False)

    def m_seq_rend(self, x, obj, o, args, n):
        return self.it_begin(x, obj, o, True, True)
    m_seq_cbegin, m_seq_cend, m_seq_crbegin, m_seq_crend = m_seq_begin, m_seq_end, m_seq_rbegin, m_seq_rend

    def m_seq_resize(self, x, obj, o, args, n):
        k = x.rv(args[0])
        et = x.T.elem(o.t)
        if owned.has_own(o.t):
            if len(args) > 1:
                raise ExtractError('owning pointers are copied')
            owned.dropped_from(self, x, x.read(obj), self.iv(k))
        v = x.read(self.elem_arg(x, o, args[1])).e if len(args) > 1 else x.default_value(et)
        o = x.read(obj)
        x.assign(obj, f'seq_resize({o.e}, {self.iv(k)}, {v})')
        return V('()', ('void',))

    def m_vec_insert(self, x, obj, o, args, n):
        it = x.rv(args[0])
        if it.src is None or not isinstance(obj, L) or it.src != obj.p:
            raise ExtractError('insert position in another container')
        _, i = self.it_parts(x, it)
        i = self.bind(x, i, 'int', 'k')
        et = x.T.elem(o.t)
        if len(args) == 2:
            v = self.elem_arg(x, o, args[1])
            o = x.read(obj)
            x.oblig(f'0 <= {i} <= {o.e}.len()', 'insert position is inside the sequence')
            x.assign(obj, f'{o.e}.insert({i}, {v.e})')
            return self.mk_it(x, x.rd(obj.p), i, et, obj.p)
        a, b = x.rv(args[1]), x.rv(args[2])
        o = x.read(obj)
        x.oblig(f'0 <= {i} <= {o.e}.len()', 'insert position is inside the sequence')
        if a.t[0] in ('iter', 'riter'):
            if a.src == obj.p:
                x.oblig('false', 'range inserted into a vector does not come from that vector')
            mid = self.it_range(x, a, b)
        else:
            mid = f'Seq::new({self.iv(a)} as nat, |_k: int| {b.e})'
        x.assign(obj, f'({o.e}.subrange(0, {i}) + {mid} + {o.e}.subrange({i}, {o.e}.len() as int))')
        return self.mk_it(x, x.rd(obj.p), i, et, obj.p)

    def m_vec_erase(self, x, obj, o, args, n):
        it = x.rv(args[0])
        if it.src is None or not isinstance(obj, L) or it.src != obj.p:
            raise ExtractError('erase position in another container')
        _, i = self.it_parts(x, it)
        i = self.bind(x, i, 'int', 'k')
        x.oblig(f'0 <= {i} < {o.e}.len()', 'erased position is inside the sequence')
        owned.dropped_from(self, x, o, i, f'{i} + 1')
        x.assign(obj, f'{o.e}.remove({i})')
        return self.mk_it(x, x.rd(obj.p), i, x.T.elem(o.t), obj.p)

    def m_str_c_str(self, x, obj, o, args, n):
        return V(f'(CStr {{ buf: {o.e}, off: 0 }})', ('cstr',), extra=('of', o.e))
    m_str_data = m_str_c_str

    def m_vec_data(self, x, obj, o, args, n):
        if not isinstance(obj, L):
            raise ExtractError('data() of a temporary')
        return V('()', ('bufptr',), extra=('bufof', obj.p))

    def m_oss_str(self, x, obj, o, args, n):
        if args:
            v = x.rv(args[0])
            x.assign(obj, self.s_of(x, v))
            return V('()', ('void',))
        return V(o.e, STR)

    def m_ss_str(self, x, obj, o, args, n):
        if args:
            x.assign(obj, f'ss_new({self.s_of(x, x.rv(args[0]))})')
            return V('()', ('void',))
        return V(f'{o.e}.buf', STR)

    def m_ss_fail(self, x, obj, o, args, n):
        return V(f'{o.e}.fail', BOOL)

    def m_ss_good(self, x, obj, o, args, n):
        return V(f'{o.e}.good', BOOL)

    def m_ss_eof(self, x, obj, o, args, n):
        return V(f'(!{o.e}.good && {o.e}.pos >= {o.e}.buf.len())', BOOL)

    def f_getline(self, x, args, n):
        a, item = x.expr(args[0]), x.expr(args[1])
        d = x.rv(args[2]).e if len(args) > 2 else '10u8'
        if isinstance(a, L) and isinstance(item, L) and a.t[0] == 'fstream':
            return stdfile.getline(x, a, item, d)
        if isinstance(a, L) and isinstance(item, L) and a.t[0] == 'istream':
            o = x.fresh('in')
            x.emit('let', o, 'Seq<u8>', x.rd(a.p))
            x.assign(item, f'in_item({o}, {x.rd(item.p)}, {d})')
            x.assign(a, f'in_rest({o}, {d})')
            return a
        if not isinstance(a, L) or not isinstance(item, L) or a.t[0] != 'ss':
            raise ExtractError(f'getline from {x.read(a).t}')
        o = x.fresh('ss')
        x.emit('let', o, 'SStream', x.rd(a.p))
        x.assign(item, f'ss_item({o}, {x.rd(item.p)}, {d})')
        x.assign(a, f'ss_next({o}, {d})')
        return a

    def m_oss_clear(self, x, obj, o, args, n):
        return V('()', ('void',))

    def m_str_append(self, x, obj, o, args, n):
        vs = [x.rv(a) for a in args]
        o = x.read(obj)
        if len(vs) == 1:
            e = self.s_of(x, vs[0])
        elif vs[0].t[0] == 'int':
            e = f'Seq::new({self.iv(vs[0])} as nat, |_k: int| {vs[1].e})'
        elif vs[0].t[0] == 'cstr' and vs[1].t[0] == 'int':
            c = self.bind(x, vs[0].e, 'CStr', 'c')
            x.oblig(f'0 <= {c}.off && {c}.off + {self.iv(vs[1])} <= {c}.buf.len() + 1', 'bytes appended lie inside the buffer')
            e = f'cstr_take({c}, {self.iv(vs[1])})'
        else:
            raise ExtractError('append')
        x.assign(obj, f'({o.e} + {e})')
        return obj

    def m_str_substr(self, x, obj, o, args, n):
        p = x.rv(args[0]) if args else V('0u64', SZ, c=0)
        k = x.rv(args[1]) if len(args) > 1 else None
        s = self.bind(x, o.e, 'Seq<u8>')
        with x.sub() as sb:
            x.do_throw('Exc::OutOfRange')
        x.emit('if', f'{self.iv(p)} > {s}.len()', sb.items, [])
        x.pending_check()
        if k is None:
            return V(f'{s}.subrange({self.iv(p)}, {s}.len() as int)', STR)
        return V(f'str_substr({s}, {self.iv(p)}, {self.iv(k)})', STR)

    def m_str_compare(self, x, obj, o, args, n):
        vs = [x.rv(a) for a in args]
        if len(vs) == 1:
            return V(f'bytes_cmp({o.e}, {self.s_of(x, vs[0])})', I32)
        if len(vs) == 3:
            s = self.bind(x, o.e, 'Seq<u8>')
            w = self.bind(x, self.s_of(x, vs[2]), 'Seq<u8>')
            with x.sub() as sb:
                x.do_throw('Exc::OutOfRange')
            x.emit('if', f'{self.iv(vs[0])} > {s}.len()', sb.items, [])
            x.pending_check()
            return V(f'bytes_cmp(str_substr({s}, {self.iv(vs[0])}, {self.iv(vs[1])}), {w})', I32)
        raise ExtractError('compare')

    def m_str_find(self, x, obj, o, args, n):
        v = x.rv(args[0])
        p = x.rv(args[1]) if len(args) > 1 else V('0u64', SZ, c=0)
        return V(f'str_find({o.e}, {self.s_of(x, v)}, {self.iv(p)})', SZ)

    def find_byte_set(self, x, o, args, want):
        v = x.rv(args[0])
        p = x.rv(args[1]) if len(args) > 1 else V('0u64', SZ, c=0)
        if v.t[0] == 'cstr' and isinstance(v.c, list):
            bs = v.c[:v.c.index(0)] if 0 in v.c else v.c
            test = ' || '.join(f'_b == {b}u8' for b in bs) or 'false'
        elif v.t[0] == 'char':
            test = f'_b == {v.e}'
        else:
            test = f'{self.bind(x, self.s_of(x, v), "Seq<u8>")}.contains(_b)'
        return V(f'str_find_first({o.e}, {self.iv(p)}, |_b: u8| {"" if want else "!"}({test}))', SZ)

    def m_str_find_first_not_of(self, x, obj, o, args, n):
        return self.find_byte_set(x, o, args, False)

    def m_str_find_first_of(self, x, obj, o, args, n):
        return self.find_byte_set(x, o, args, True)

    def m_uset_find(self, x, obj, o, args, n):
        v = x.rv(args[0])
        return V(f'(SetIt {{ found: {o.e}.contains({v.e}) }})', ('setit', v.t), extra=('setit', o.e, v.e))

    def m_uset_end(self, x, obj, o, args, n):
        return V('(SetIt { found: false })', ('setit', ('void',)), extra=('setend',))

    def m_uset_count(self, x, obj, o, args, n):
        v = x.rv(args[0])
        return V(f'(if {o.e}.contains({v.e}) {{ 1u64 }} else {{ 0u64 }})', SZ)

    def m_umap_at(self, x, obj, o, args, n):
        v = x.rv(args[0])
        with x.sub() as sb:
            x.do_throw('Exc::OutOfRange')
        x.emit('if', f'!{o.e}.dom().contains({v.e})', sb.items, [])
        x.pending_check()
        return V(f'{o.e}[{v.e}]', o.t[2])

    def m_umap_find(self, x, obj, o, args, n):
        v = x.rv(args[0])
        e = self.bind(x, v.e, x.T.vt(v.t))
        return V(f'(SetIt {{ found: {o.e}.dom().contains({e}) }})', ('setit', ('pair', o.t[1], o.t[2])),
                 extra=('mapit', o.e, e))
    m_umap_end = m_uset_end
    m_umap_count = None

    # ---------------------------------------------------------------- operators
    def std_operator(self, x, name, args, n):
        a = x.expr(args[0])
        ra = x.read(a)
        t = ra.t
        op = name[len('operator'):] if name and name.startswith('operator') else name
        for h in getattr(self, 'hooks_op', []):
            r = h(x, op, a, args, n)
            if r is not None:
                return r
        if t[0] == 'atomic':
            return self.atomic_method(x, a, name, args[1:], n)
        if t[0] == 'thing':
            rest = [x.rv(b) for b in args[1:]]
            if op == '()' and t[1] == 'bernoulli_distribution':
                v = x.fresh('rnd')
                x.emit('let', v, 'bool', x.anyv(BOOL))
                x.emit('assume', f'(eq_F64(fdist_lo_F64({ra.e}), {FLT0}) ==> !{v}) && (eq_F64(fdist_lo_F64({ra.e}), {FLT1}) ==> {v}) && bern_drawn(fdist_lo_F64({ra.e}), {v})')
                return V(v, BOOL)
            if op == '()' and t[1] == 'uniform_real_distribution' and len(args) == 2 and x.T.of(n)[0] == 'flt':
                it = x.T.of(n)
                ft = x.T.vt(it)
                d, v = x.fresh('d'), x.fresh('rnd')
                x.emit('let', d, x.T.vt(t), ra.e)
                x.emit('let', v, ft, x.anyv(it))
                x.emit('assume', f'le_{ft}(fdist_lo_{ft}({d}), {v}) && le_{ft}({v}, fdist_hi_{ft}({d})) && fdrawn_{ft}(fdist_lo_{ft}({d}), fdist_hi_{ft}({d}), {v})')
                return V(v, it)
            if op == '()' and t[1] == 'uniform_int_distribution' and len(args) == 2 and x.T.of(n)[0] == 'int':
                it = x.T.of(n)
                d, v = x.fresh('d'), x.fresh('rnd')
                x.emit('let', d, x.T.vt(t), ra.e)
                x.emit('let', v, x.T.vt(it), x.anyv(it))
                x.emit('assume', f'dist_lo({d}) <= {v} && {v} <= dist_hi({d}) && drawn(dist_lo({d}), dist_hi({d}), {v} as int)')
                return V(v, it)
            if op == '()' and t[1] == 'mersenne_twister_engine' and len(args) == 1 and x.T.of(n)[0] == 'int':
                it = x.T.of(n)
                v = x.fresh('rnd')
                x.emit('let', v, x.T.vt(it), x.anyv(it))
                return V(v, it)
            if op in ('+', '-', '*', '/', '%'):
                return V(x.anyv(t), t)
            if op in ('=', '+=', '-=', '*=', '/=') and isinstance(a, L):
                x.assign(a, x.anyv(t))
                return a
            if op in ('==', '!=', '<', '>', '<=', '>='):
                return V(x.anyv(BOOL), BOOL)
        if op == '[]':
            i = x.rv(args[1])
            if t[0] in ('vec', 'str'):
                if t[0] == 'str':
                    # s[s.size()] is the terminating NUL
                    k = self.iv(i)
                    x.oblig(f'0 <= {k} <= {ra.e}.len()', 'string subscript in range')
                    if x.lvalue_use(n):
                        x.oblig(f'{k} < {ra.e}.len()', 'string subscript in range')
                        return self.at_l(x, a, ra, k, CH)
                    return V(f'str_at({ra.e}, {k})', CH)
                x.oblig(f'0 <= {self.iv(i)} < {ra.e}.len()', 'vector subscript in range')
                return self.at_l(x, a, ra, self.iv(i), t[1])
            if t[0] == 'map' and isinstance(a, L):
                return self.map_index(x, a, t, i)
            if t[0] in ('iter', 'riter'):
                s, j = self.it_parts(x, ra)
                x.oblig(f'0 <= {j} + {i.e} < {s}.len()', 'iterator subscript in range')
                return V(f'{s}[{j} + {i.e}]', t[1])
        if op == '*' and len(args) == 1:
            r = self.deref(x, a, n)
            if r is not None:
                return r
        if op == '->':
            if t[0] in ('iter', 'riter', 'setit'):
                r = self.deref(x, a, n)
                if r is not None:
                    return r
        if t[0] in ('iter', 'riter'):
            if op in ('++', '--'):
                s, i = self.it_parts(x, V(x.rd(a.p), a.t, src=a.src) if isinstance(a, L) else a)
                d = '+ 1' if op == '++' else '- 1'
                x.oblig(f'0 <= {i} {d} <= {s}.len()', 'iterator stays inside the range')
                old = x.fresh('it')
                x.emit('let', old, x.T.vt(t), ra.e)
                x.assign(a, f'Iter {{ s: {old}.s, i: {old}.i {d} }}')
                if len(args) == 2:
                    return V(old, t, src=a.src)
                return a
            b = x.rv(args[1])
            if op in ('==', '!=', '<', '>', '<=', '>='):
                s, i = self.it_parts(x, ra)
                s2, j = self.it_parts(x, b)
                return V(f'({i} {op} {j})', BOOL)
            s, i = self.it_parts(x, ra)
            if op in ('+', '-') and b.t[0] == 'int':
                k = f'({i} {op} {self.iv(b)})'
                x.oblig(f'0 <= {k} <= {s}.len()', 'iterator arithmetic stays inside the range')
                return self.mk_it(x, s, k, t[1], ra.src, t[0] == 'riter')
            if op == '-' and b.t[0] == t[0]:
                s2, j = self.it_parts(x, b)
                return V(f'(({i} - {j}) as i64)', PD)
            if op in ('+=', '-=') and isinstance(a, L):
                old = x.fresh('it')
                x.emit('let', old, x.T.vt(t), ra.e)
                k = f'({old}.i {op[0]} {self.iv(b)})'
                x.oblig(f'0 <= {k} <= {old}.s.len()', 'iterator arithmetic stays inside the range')
                x.assign(a, f'Iter {{ s: {old}.s, i: {k} }}')
                return a
        if t[0] == 'setit' and op in ('==', '!='):
            b = x.rv(args[1])
            va, vb = ra, b
            e = f'({va.e} {op} {vb.e})'
            # comparison with end(): found-ness
            if vb.extra == ('setend',):
                e = f'({"!" if op == "==" else ""}{va.e}.found)'
            return V(e, BOOL)
        if op == '=':
            b = x.expr(args[1])
            rb = x.read(b)
            if owned.has_own(t) and t[0] not in ('iter', 'riter'):
                if t[0] != 'vec' or args[1].get('valueCategory') not in ('xvalue', 'prvalue'):
                    raise ExtractError('owning pointers are copied')
                owned.dropped(x, self.bind(x, x.read(a).e, x.T.vt(t)), t[1])
            if isinstance(a, L):
                if t[0] == 'str' and rb.t[0] in ('cstr', 'char'):
                    x.assign(a, self.s_of(x, rb))
                    return a
                if rb.t == t or t[0] in ('iter', 'riter', 'vec', 'oss') and rb.t[0] in (t[0], 'ilist'):
                    if args[1].get('valueCategory') == 'xvalue' and isinstance(b, L) and b.p != a.p:
                        tmp = x.fresh('mv')
                        x.emit('let', tmp, x.T.vt(t), rb.e)
                        x.moved_from(b)
                        x.assign(a, tmp)
                        return a
                    x.assign(a, rb.e)
                    return a
        if op in ('+', '+=') and t[0] in ('str', 'cstr'):
            b = x.rv(args[1])
            sa, sb_ = self.s_of(x, ra), self.s_of(x, b)
            if op == '+':
                return V(f'({sa} + {sb_})', STR)
            x.assign(a, f'({x.read(a).e} + {sb_})')
            return a
        if op in ('==', '!=', '<', '>', '<=', '>='):
            b = x.rv(args[1])
            return self.seq_compare(x, op, ra, b)
        if op == '<<':
            return self.stream_out(x, a, args[1])
        raise ExtractError(f'operator{op} on {t} at line {x.line}')

    def seq_compare(self, x, op, a, b):
        if a.t[0] in ('str', 'cstr') and b.t[0] in ('str', 'cstr'):
            ea, eb = self.s_of(x, a), self.s_of(x, b)
            if op in ('==', '!='):
                return V(f'{"!" if op == "!=" else ""}({ea} =~= {eb})', BOOL)
            return V(f'(bytes_cmp({ea}, {eb}) {op} 0)', BOOL)
        if a.t[0] == 'vec' and b.t == a.t:
            et = a.t[1]
            if op in ('==', '!='):
                self.need_eq(x, et)
                return V(f'{"!" if op == "!=" else ""}({a.e} =~= {b.e})', BOOL)
            lt = self.need_lt(x, et)
            ab = f'seq_lt({a.e}, {b.e}, {lt})'
            ba = f'seq_lt({b.e}, {a.e}, {lt})'
            return V({'<': ab, '>': ba, '<=': f'!{ba}', '>=': f'!{ab}'}[op], BOOL)
        raise ExtractError(f'comparison {op} of {a.t} and {b.t}')

    def need_eq(self, x, et):
        """element equality must be structural: a user operator== must carry the pure contract `this == other`"""
        if et[0] in ('int', 'char', 'bool', 'enum', 'str'):
            return
        if et[0] == 'vec':
            return self.need_eq(x, et[1])
        if et[0] == 'cls':
            for f in x.ast.byqual.get('Caitlyn::' + et[1] + '::operator==', []):
                pt = x.T.unref(x.ptype_of(f, 0, f.params[0]))
                c = x.P.contract(f)
                if pt == et and c is not None and c.pure is not None and c.structural:
                    x.P.want(f)
                    return
        raise ExtractError(f'equality of {et} is not known to be structural')

    def need_lt(self, x, et):
        if et[0] == 'cls':
            for f in x.ast.byqual.get('Caitlyn::' + et[1] + '::operator<', []):
                pt = x.T.unref(x.ptype_of(f, 0, f.params[0]))
                c = x.P.contract(f)
                if pt == et and c is not None and c.pure is not None:
                    x.P.want(f)
                    from xlate import subst
                    vt = x.T.vt(et)
                    body = subst(c.pure, {'this': '_a', c.params[0] if c.params else 'other': '_b'})
                    return f'|_a: {vt}, _b: {vt}| {body}'
        raise ExtractError(f'order of {et}')

    def stream_out(self, x, a, arg):
        v = x.rv(arg) if not isinstance(arg, (V, L)) else x.read(arg)
        if v.t == ('rdbuf',):
            e = stdfile.drain(x, v.extra)
        else:
            e = self.out_bytes(x, v)
        if x.read(a).t[0] == 'ss':
            if not isinstance(a, L):
                raise ExtractError('output to a temporary stringstream')
            x.oblig(f'{x.rd(a.p)}.wpos == {x.rd(a.p)}.buf.len()', 'output to a string stream appends')
            x.assign(a, f'ss_put({x.rd(a.p)}, {e})')
            return a
        if not isinstance(a, L):
            # temporary stream
            ra = x.read(a)
            return V(f'({ra.e} + {e})', ra.t)
        x.assign(a, f'({x.rd(a.p)} + {e})')
        if a.p[0] == 'sink' and v.t[0] == 'fnref' and v.extra[0].get('name') in ('endl', 'flush'):
            stdfile.flush(x, L(a.p[1], stdfile.FS))
        return a

    def out_bytes(self, x, v):
        if v.t[0] in ('str', 'cstr', 'char'):
            return self.s_of(x, v)
        if v.t == ('int', 8, False) or v.t == ('int', 8, True):
            return f'seq![{v.e} as u8]'
        if v.t[0] == 'int':
            return f'int_dec({v.e} as int)'
        if v.t[0] == 'cls' or v.t[0] == 'opq':
            # user operator<< found by the compiler for class types is called through its own declaration
            raise ExtractError(f'output of {v.t}')
        if v.t[0] == 'flt':
            return f'flt_out_{x.T.vt(v.t)}({v.e})'
        if v.t[0] == 'fnref':
            nm = v.extra[0].get('name')
            if nm == 'endl':
                return 'seq![10u8]'
            if nm in ('flush', 'ends', 'boolalpha', 'noboolalpha', 'dec'):
                return 'Seq::<u8>::empty()'
        raise ExtractError(f'output of {v.t}')

    # ---------------------------------------------------------------- free functions
    def std_call(self, x, name, args, n, rd):
        if name == 'atomic_thread_fence':
            return conc.fence(self, x, args) if self.conc else V('()', ('void',))
        h = self.hooks_std.get(name)
        if h:
            r = h(x, args, n)
            if r is not None:
                return r
        args = [a for a in args if a.get('kind') != 'CXXDefaultArgExpr']
        m = getattr(self, 'f_' + name, None)
        if m is None:
            raise ExtractError(f'std function {name} at line {x.line}')
        return m(x, args, n)

    def f_move(self, x, args, n):
        return x.expr(args[0])
    f_forward = f_addressof = f_move

    def f_now(self, x, args, n):
        return V(x.anyv(('thing', 'time_point')), ('thing', 'time_point'))

    def f_duration_cast(self, x, args, n):
        x.rv(args[0])
        return V(x.anyv(('thing', 'duration')), ('thing', 'duration'))

    def f_addressof(self, x, args, n):
        return V('&', ('addr',), extra=x.expr(args[0]))

    def limit(self, x, n, top):
        """std::numeric_limits<T>::min() and max()"""
        t = x.T.of(n)
        if t[0] != 'int':
            raise ExtractError(f'numeric limit of {t}')
        w, s = t[1], t[2]
        v = (2 ** (w - 1) - 1 if s else 2 ** w - 1) if top else (-2 ** (w - 1) if s else 0)
        ty = x.T.vt(t)
        return V(f'{v}{ty}' if v >= 0 else f'{ty}::MIN', t, c=v)

    def f_lowest(self, x, args, n):
        return self.limit(x, n, False)

    def f_make_pair(self, x, args, n):
        t = x.T.of(n)
        a, b = x.rv(args[0]), x.rv(args[1])
        if t[0] != 'pair' or (t[1], t[2]) != (a.t, b.t):
            raise ExtractError(f'make_pair giving {t}')
        return V(f'(Pair {{ first: {a.e}, second: {b.e} }})', t)

    def f_max(self, x, args, n):
        if not args:
            return self.limit(x, n, True)
        a, b = x.rv(args[0]), x.rv(args[1])
        return V(f'(if {a.e} < {b.e} {{ {b.e} }} else {{ {a.e} }})', a.t)

    def f_min(self, x, args, n):
        if not args:
            return self.limit(x, n, False)
        a, b = x.rv(args[0]), x.rv(args[1])
        return V(f'(if {b.e} < {a.e} {{ {b.e} }} else {{ {a.e} }})', a.t)

    def f_swap(self, x, args, n):
        a, b = x.expr(args[0]), x.expr(args[1])
        ra, rb = x.read(a), x.read(b)
        t1, t2 = x.fresh('sw'), x.fresh('sw')
        x.emit('let', t1, x.T.vt(ra.t), ra.e)
        x.emit('let', t2, x.T.vt(rb.t), rb.e)
        x.assign(a, t2)
        x.assign(b, t1)
        return V('()', ('void',))

    def f_to_string(self, x, args, n):
        v = x.rv(args[0])
        if v.t[0] == 'flt':
            return V(f'flt_text_{x.T.vt(v.t)}({v.e})', STR)
        if v.t[0] == 'char':
            v = x.conv(v, I32)
        return V(f'int_dec({v.e} as int)', STR)

    def f_reverse(self, x, args, n):
        a, b = x.rv(args[0]), x.rv(args[1])
        if a.src is None:
            raise ExtractError('reverse of an unknown container')
        s, i = self.it_parts(x, a)
        s2, j = self.it_parts(x, b)
        c = x.rd(a.src)
        # whole-container form only
        x.oblig(f'{i} == 0 && {j} == {c}.len()', 'std::reverse of the whole container')
        x.assign(L(a.src, ('vec', a.t[1])), f'{c}.reverse()')
        return V('()', ('void',))

    def f_distance(self, x, args, n):
        a, b = x.rv(args[0]), x.rv(args[1])
        s, i = self.it_parts(x, a)
        s2, j = self.it_parts(x, b)
        return V(f'(({j} - {i}) as i64)', PD)

    def f_equal(self, x, args, n):
        a, b, c = [x.rv(y) for y in args[:3]]
        self.need_eq(x, a.t[1])
        s, i = self.it_parts(x, a)
        s2, j = self.it_parts(x, b)
        s3, k = self.it_parts(x, c)
        x.oblig(f'0 <= {i} <= {j} <= {s}.len()', 'std::equal first range is valid')
        x.oblig(f'0 <= {k} && {k} + ({j} - {i}) <= {s3}.len()', 'std::equal second range is long enough')
        pat = self.slice(s, i, j)
        return V(f'occurs_at({s3}, {pat}, {k})', BOOL)

    def f_search(self, x, args, n):
        a, b, c, d = [x.rv(y) for y in args[:4]]
        self.need_eq(x, a.t[1])
        s, i = self.it_parts(x, a)
        s2, j = self.it_parts(x, b)
        x.oblig(f'0 <= {i} <= {j} <= {s}.len()', 'std::search range is valid')
        pat = self.it_range(x, c, d)
        return self.mk_it(x, s, f'seq_search({s}, {i}, {j}, {pat})', a.t[1], a.src, a.t[0] == 'riter')

    def find_like(self, x, args, fn):
        a, b, p = [x.rv(y) for y in args[:3]]
        s, i = self.it_parts(x, a)
        s2, j = self.it_parts(x, b)
        x.oblig(f'0 <= {i} <= {j} <= {s}.len()', f'std::{fn} range is valid')
        pred = x.lambda_spec(p, a.t[1], (s, i, j))
        return a, s, i, j, pred

    def f_find_if(self, x, args, n):
        a, s, i, j, pred = self.find_like(x, args, 'find_if')
        return self.mk_it(x, s, f'seq_find_if({s}, {i}, {j}, {pred})', a.t[1], a.src, a.t[0] == 'riter')

    def f_find_if_not(self, x, args, n):
        a, s, i, j, pred = self.find_like(x, args, 'find_if_not')
        nt = self.neg(x, a, pred)
        return self.mk_it(x, s, f'seq_find_if({s}, {i}, {j}, {nt})', a.t[1], a.src, a.t[0] == 'riter')

    def neg(self, x, a, pred):
        vt = x.T.vt(a.t[1])
        return f'|_x: {vt}| !({pred})(_x)'

    def f_all_of(self, x, args, n):
        a, s, i, j, pred = self.find_like(x, args, 'all_of')
        return V(f'(forall|_q: int| #![trigger {s}[_q]] {i} <= _q < {j} ==> ({pred})({s}[_q]))', BOOL)

    def f_any_of(self, x, args, n):
        a, s, i, j, pred = self.find_like(x, args, 'any_of')
        return V(f'(exists|_q: int| #![trigger {s}[_q]] {i} <= _q < {j} && ({pred})({s}[_q]))', BOOL)

    def f_find(self, x, args, n):
        a, b, v = [x.rv(y) for y in args[:3]]
        self.need_eq(x, a.t[1])
        s, i = self.it_parts(x, a)
        s2, j = self.it_parts(x, b)
        x.oblig(f'0 <= {i} <= {j} <= {s}.len()', 'std::find range is valid')
        vt = x.T.vt(a.t[1])
        return self.mk_it(x, s, f'seq_find_if({s}, {i}, {j}, |_x: {vt}| _x == {v.e})', a.t[1], a.src, a.t[0] == 'riter')

    def f_length(self, x, args, n):     # std::char_traits<char>::length
        if len(args) != 1:
            raise ExtractError(f'std function length at line {x.line}')
        return self.f_strlen(x, args, n)

    def f_strlen(self, x, args, n):
        return self.size_val(x, self.s_of(x, x.rv(args[0])))

    # zero exactly for equal text; the sign of other results is left open
    def f_strcmp(self, x, args, n):
        a = x.rv(args[0])
        mark = len(x.cur)
        b = x.rv(args[1])
        a = x.keep(a, mark)
        r = x.fresh('cmp')
        x.emit('let', r, 'i32', x.anyv(('int', 32, True)))
        x.emit('assume', f'({r} == 0) == ({self.s_of(x, a)} =~= {self.s_of(x, b)})')
        return V(r, ('int', 32, True))

    # text -> number conversions: std semantics given by spec functions of the prelude
    def sto(self, x, args, fn, t):
        v = x.rv(args[0])
        if len(args) > 1 and x.rv(args[1]).t[0] != 'null':
            raise ExtractError(f'{fn} with a position')
        base = '10'
        if len(args) > 2:
            b = x.rv(args[2])
            base = str(b.c)
        s = self.bind(x, self.s_of(x, v), 'Seq<u8>')
        with x.sub() as sb:
            x.do_throw('Exc::InvalidArgument')
        x.emit('if', f'!sto_valid({s}, {base})', sb.items, [])
        x.pending_check()
        vt = x.T.vt(t)
        with x.sub() as sb:
            x.do_throw('Exc::OutOfRange')
        lo, hi = x.irange(t)
        if fn in ('stoul', 'stoull'):
            x.emit('if', f'!sto_u_fits({s}, {base})', sb.items, [])
            x.pending_check()
            return V(f'sto_u({s}, {base})', t)
        x.emit('if', f'!({lo} <= sto_val({s}, {base}) <= {hi})', sb.items, [])
        x.pending_check()
        return V(f'(sto_val({s}, {base}) as {vt})', t)

    def f_stoul(self, x, args, n):
        return self.sto(x, args, 'stoul', SZ)

    def f_stoull(self, x, args, n):
        return self.sto(x, args, 'stoull', SZ)

    def f_stoi(self, x, args, n):
        return self.sto(x, args, 'stoi', I32)

    def f_stoll(self, x, args, n):
        return self.sto(x, args, 'stoll', PD)
    f_stol = f_stoll

    def fsto(self, x, args, fn, vt, t):
        v = x.rv(args[0])
        s = self.bind(x, self.s_of(x, v), 'Seq<u8>')
        for kind, e in (('InvalidArgument', f'!{fn}_valid({s})'), ('OutOfRange', f'{fn}_range({s})')):
            with x.sub() as sb:
                x.do_throw('Exc::' + kind)
            x.emit('if', e, sb.items, [])
            x.pending_check()
        return V(f'{fn}_val({s})', t)

    def f_stod(self, x, args, n):
        return self.fsto(x, args, 'stod', 'F64', ('flt', 'double'))

    def f_stold(self, x, args, n):
        return self.fsto(x, args, 'stold', 'F80', ('flt', 'long double'))


setattr(Lib, 'm_ss_operator bool', lambda self, x, obj, o, args, n: V(f'(!{o.e}.fail)', BOOL))
setattr(Lib, 'm_ss_operator!', lambda self, x, obj, o, args, n: V(f'{o.e}.fail', BOOL))
