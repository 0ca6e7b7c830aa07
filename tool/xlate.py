"""Mechanical translation of C++ function bodies (clang AST) into Verus text over ghost values.

Dropped by the extraction (stated in DESIGN.md): destructor calls of locals/temporaries (except where a class is
listed in `lifetime`), `noexcept`, inline/constexpr specifiers, exception messages, evaluation order between
unsequenced operands (taken left to right), allocation failure.
"""
import re
from cxxast import Ast, ExtractError, Func, INT, split_args, strip_ns, norm_sig

TOK = re.compile(r'[A-Za-z_][A-Za-z_0-9]*|"(?:\\.|[^"\\])*"|\'[^\']*\'|.|\n', re.S)
RUST_KW = {'type', 'match', 'in', 'mod', 'fn', 'let', 'mut', 'ref', 'self', 'use', 'where', 'move', 'impl', 'trait',
           'loop', 'as', 'pub', 'crate', 'super', 'dyn', 'box', 'final', 'priv', 'proof', 'spec', 'exec', 'ghost',
           'int', 'nat', 'tracked', 'open', 'closed', 'requires', 'ensures', 'forall', 'exists', 'choose', 'assert',
           'assume', 'test', 'res__', 'old', 'abs', 'by', 'via', 'when', 'state', 'is', 'has', 'any', 'all'}


def subst(text, m):
    """identifier substitution, not touching field names after '.' or paths"""
    out, prev = [], ''
    toks = TOK.findall(text)
    for i, t in enumerate(toks):
        if t in m:
            # skip field access `.x`, but not range `..x`
            if prev == '.' and not (len(out) > 1 and out[-2] == '.'):
                out.append(t)
            # struct literal field `x:`  (but not `x::`)
            elif i + 1 < len(toks) and toks[i + 1] == ':' and not (i + 2 < len(toks) and toks[i + 2] == ':') \
                    and prev in ('{', ','):
                out.append(t)
            else:
                out.append(m[t])
        else:
            out.append(t)
        if not t.isspace():
            prev = t
    return ''.join(out)


def idents(text):
    out, prev = set(), ''
    for t in TOK.findall(text):
        if re.match(r'[A-Za-z_]', t) and prev != '.':
            out.add(t)
        if not t.isspace():
            prev = t
    return out


ASSIGNS = {'operator' + x for x in ('=', '+=', '-=', '*=', '/=', '%=', '<<=', '>>=', '&=', '|=', '^=')}


class V:
    """an rvalue: a pure Verus expression"""
    __slots__ = ('e', 't', 'c', 'src', 'extra')

    def __init__(self, e, t, c=None, src=None, extra=None):
        self.e, self.t, self.c, self.src, self.extra = e, t, c, src, extra


class L:
    """an lvalue: root variable plus projections"""
    __slots__ = ('p', 't', 'src', 'extra')

    def __init__(self, p, t, src=None, extra=None):
        self.p, self.t, self.src, self.extra = p, t, src, extra


INTTYPES = {(8, False): 'u8', (8, True): 'i8', (16, False): 'u16', (16, True): 'i16', (32, False): 'u32',
            (32, True): 'i32', (64, False): 'u64', (64, True): 'i64'}
EXC = {'std::out_of_range': 'OutOfRange', 'std::invalid_argument': 'InvalidArgument',
       'std::runtime_error': 'RuntimeError', 'std::logic_error': 'LogicError', 'std::ios_base::failure': 'IosFailure',
       'std::exception': 'Other', 'FormatError': 'FormatError', 'std::length_error': 'LengthError'}
# which kinds a handler of a given type catches
CATCH = {'std::out_of_range': ['OutOfRange'], 'std::invalid_argument': ['InvalidArgument'],
         'std::logic_error': ['OutOfRange', 'InvalidArgument', 'LogicError', 'LengthError'],
         'std::runtime_error': ['RuntimeError', 'FormatError', 'IosFailure'],
         'std::exception': ['OutOfRange', 'InvalidArgument', 'LogicError', 'RuntimeError', 'FormatError', 'IosFailure',
                            'Other', 'LengthError'],
         'FormatError': ['FormatError']}
MAXLEN = '0x0200_0000_0000_0000'


# types of the library of whose values nothing is known
THINGS = {'time_point', 'duration', 'mersenne_twister_engine', 'bernoulli_distribution', 'uniform_int_distribution', 'uniform_real_distribution'}
SIZE_T = ('int', 64, False)


def size_key(t):
    import zlib
    return zlib.crc32(repr(t).encode())


def sani(s):
    return re.sub(r'_+$', '', re.sub(r'[^A-Za-z0-9_]+', '_', s))


class Types:
    def __init__(self, ast, fieldnames=None):
        self.ast = ast
        self.used = {}          # class name -> node (structs to emit)
        self.fieldnames = fieldnames or {}
        self.frename = {}       # (class, actual) -> canonical
        self.opaque = {}        # class name -> verus type given by contracts
        self.ctx = None         # class whose alias names are in scope
        self.addr = False       # pointers are addresses in the ghost heap
        self.owned = set()      # classes whose pointers own what they point to
        self.single = {}        # classes with one object (rawmem.py)

    def parse(self, s, depth=0):
        s = s.strip()
        if depth > 20:
            raise ExtractError('type recursion ' + s)
        m = re.match(r'^([\w:<> ,]+[\w>&*]) ?\(\*(?:const)?\)\(([^()]*)\)( const)?$', s)
        if m:
            return ('fnp', self.parse(m.group(1), depth + 1)) + tuple(
                self.parse(a, depth + 1) for a in split_args(m.group(2)) if a.strip() and a.strip() != 'void')
        if s.endswith('&&'):
            return ('rref', self.parse(s[:-2], depth + 1))
        if s.endswith('&'):
            inner = s[:-1].strip()
            return ('ref', self.parse(inner, depth + 1), inner.endswith('const') or
                    (inner.startswith('const ') and not inner.endswith('*')))
        m = re.match(r'^(.*)\*\s*(const)?$', s)
        if m and not s.endswith('>'):
            inner = m.group(1).strip()
            if re.match(r'^(const )?char( const)?$', inner):
                return ('cstr',)
            pt = self.parse(inner, depth + 1)
            if pt[0] == 'cls' and pt[1] in self.single:
                return ('single', pt[1])
            if pt == ('cstr',):
                return ('argv',)
            return ('own' if pt[0] == 'cls' and pt[1] in self.owned else 'ptr', pt)
        s = re.sub(r'^((const|volatile|typename|struct|class|enum|union)\s+)+', '', s)
        s = re.sub(r'\s+const$', '', s)
        s = s.strip()
        while re.match(r'^(const|volatile)\s', s):
            s = s.split(' ', 1)[1]
        if s in INT:
            return ('int',) + INT[s]
        if s == 'char':
            return ('char',)
        if s in ('bool', '_Bool'):
            return ('bool',)
        if s == 'void':
            return ('void',)
        if s in ('float', 'double', 'long double'):
            return ('flt', s)
        if s in ('std::nullptr_t', 'nullptr_t'):
            return ('null',)
        if s in EXC:
            return ('exc', s)
        m = re.match(r'^([\w:]+)<(.*)>(::\w+)?$', s)
        if m and not m.group(3) and m.group(1).split('::')[-1] in self.ast.alias_templates:
            ps, body, defaults = self.ast.alias_templates[m.group(1).split('::')[-1]]
            sub = {**{k: v for k, v in defaults.items() if v}, **dict(zip(ps, split_args(m.group(2))))}
            return self.parse(re.sub(r'\b\w+\b', lambda w: sub.get(w.group(0), w.group(0)), body), depth + 1)
        if m and m.group(1).endswith('__Constraint') and m.group(3) == '::Type':
            return self.parse(split_args(m.group(2))[1], depth + 1)      # enable_if: only ever instantiated with true
        base = m.group(1) if m else s
        tail = base.split('::')[-1]
        if m and m.group(3) in ('::iterator', '::const_iterator'):
            inner = self.parse(base + '<' + m.group(2) + '>', depth + 1)
            return ('iter', self.elem(inner))
        if tail in ('basic_string', 'string', '__cxx11::basic_string') or base == 'BasicString':
            return ('str',)
        if tail in ('basic_ostringstream', 'ostringstream', '__stringbuf_type'):
            return ('oss',)
        if tail in ('basic_stringstream', 'stringstream', 'basic_istringstream', 'istringstream'):
            return ('ss',)
        if tail in ('basic_ostream', 'ostream'):
            return ('ostream',)
        if tail in ('basic_istream', 'istream'):
            return ('istream',)
        if tail in ('basic_fstream', 'fstream', 'basic_ofstream', 'ofstream', 'basic_ifstream', 'ifstream'):
            return ('fstream',)
        if tail in ('basic_fstream', 'fstream', 'basic_ofstream', 'ofstream', 'basic_ifstream', 'ifstream'):
            return ('fstream', tail)
        if m:
            a = split_args(m.group(2))
            if tail in ('vector', 'deque', 'initializer_list'):
                return ('vec', self.parse(a[0], depth + 1))
            if tail == '__normal_iterator':
                p = self.parse(a[0], depth + 1)
                if p == ('cstr',):
                    return ('iter', ('char',))
                return ('iter', p[1])
            if tail == '_Deque_iterator':
                return ('iter', self.parse(a[0], depth + 1))
            if tail == 'reverse_iterator':
                return ('riter', self.parse(a[0], depth + 1)[1])
            if tail == 'pair':
                return ('pair', self.unref(self.parse(a[0], depth + 1)), self.unref(self.parse(a[1], depth + 1)))
            if tail == 'unordered_set' or tail == 'set':
                return ('uset', self.parse(a[0], depth + 1))
            if tail == 'unordered_map':
                return ('umap', self.parse(a[0], depth + 1), self.parse(a[1], depth + 1))
            if tail == 'map':
                return ('map', self.parse(a[0], depth + 1), self.parse(a[1], depth + 1))
            if tail in ('_Node_const_iterator', '_Node_iterator', '_Rb_tree_iterator', '_Rb_tree_const_iterator'):
                return ('setit', self.parse(a[0], depth + 1))
            if tail == 'atomic' or tail == '__atomic_base':
                return ('atomic', self.parse(a[0], depth + 1))
            if tail in ('function',):
                return ('fnval', s)
            if tail in THINGS:
                return ('thing', tail)
        n = strip_ns(s)
        if not m and s.startswith('std::') and tail in THINGS:
            return ('thing', tail)
        if n in self.ast.classes:
            return ('cls', n)
        if n in self.ast.enums:
            return ('enum', n)
        if not m and '::' not in s and self.ctx:
            al = self.ast.aliases.get(s, {}).get('Caitlyn::' + self.ctx)
            if al and al != s:
                return self.parse(al, depth + 1)
        for q in self.ast.classes:
            if q.split('::')[-1] == n or q.endswith('::' + n):
                return ('cls', q)
        for q in self.ast.enums:
            if q.split('::')[-1] == n or q.endswith('::' + n):
                return ('enum', q)
        if m and not m.group(3):
            # the same specialisation, its arguments spelled differently
            want = None
            for q in self.ast.classes:
                if q.startswith(tail + '<') and q.endswith('>'):
                    if want is None:
                        want = [self.parse(a, depth + 1) for a in split_args(m.group(2))]
                    if not any(self.has_unk(w) for w in want) and [self.parse(a, depth + 1) for a in split_args(q[len(tail) + 1:-1])] == want:
                        return ('cls', q)
        if n in self.opaque:
            return ('opq', n)
        if tail in EXC or s in EXC:
            return ('exc', tail)
        for a in (n, tail):
            al = self.ast.alias(a, base.rpartition('::')[0] if '::' in base and base.rpartition('::')[0] in
                                self.ast.classes else self.ctx)
            if al and al != s:
                return self.parse(al, depth + 1)
        if tail in ('_Ios_Seekdir', '_Ios_Openmode', 'openmode', 'seekdir', 'memory_order'):
            return ('int', 32, True)
        if tail in ('streampos', 'fpos', 'streamoff'):
            return ('int', 64, True)
        return ('unk', s)

    def unref(self, t):
        return t[1] if t[0] in ('ref', 'rref') else t

    def elem(self, t):
        if t[0] in ('vec', 'iter', 'riter'):
            return t[1]
        if t[0] in ('str', 'oss'):
            return ('char',)
        if t[0] == 'map':
            return ('pair', t[1], t[2])
        raise ExtractError(f'no element type for {t}')

    def of(self, n):
        t = n.get('type', {})
        d = t.get('desugaredQualType')
        q = t.get('qualType', '')
        if d and not d.startswith('decltype') and 'type-parameter' not in d:
            r = self.parse(d)
            if not self.has_unk(r):
                return r
            r2 = self.parse(q)
            return r2 if not self.has_unk(r2) else r
        return self.parse(q)

    def has_unk(self, t):
        return isinstance(t, tuple) and (t[0] == 'unk' or any(self.has_unk(x) for x in t[1:] if isinstance(x, tuple)))

    def vt(self, t):
        k = t[0]
        if k in ('ref', 'rref'):
            return self.vt(t[1])
        if k == 'int':
            return INTTYPES[t[1:]]
        if k == 'char':
            return 'u8'
        if k == 'bool':
            return 'bool'
        if k == 'void':
            return '()'
        if k == 'flt':
            return {'float': 'F32', 'double': 'F64', 'long double': 'F80'}[t[1]]
        if k == 'null':
            return '()'
        if k == 'cstr':
            return 'CStr'
        if k == 'fstream':
            return 'FStr'
        if k in ('str', 'oss', 'ostream', 'istream'):
            return 'Seq<u8>'
        if k == 'ss':
            return 'SStream'
        if k == 'vec':
            return f'Seq<{self.vt(t[1])}>'
        if k == 'iter':
            return f'Iter<{self.vt(t[1])}>'
        if k == 'riter':
            return f'Iter<{self.vt(t[1])}>'
        if k == 'pair':
            return f'Pair<{self.vt(t[1])}, {self.vt(t[2])}>'
        if k == 'uset':
            return f'Set<{self.vt(t[1])}>'
        if k == 'umap':
            return f'Map<{self.vt(t[1])}, {self.vt(t[2])}>'
        if k == 'map':
            return f'Seq<Pair<{self.vt(t[1])}, {self.vt(t[2])}>>'
        if k == 'setit':
            return 'SetIt'
        if k == 'cls':
            self.use(t[1])
            if t[1] in self.opaque:
                return self.opaque[t[1]]
            return self.sname(t[1])
        if k == 'opq':
            return self.opaque[t[1]]
        if k == 'enum':
            return INTTYPES[self.ast.enums[t[1]]]
        if t == ('fnp', ('void',)):
            return 'FnId'
        if k == 'fnp':
            return f'spec_fn({", ".join(self.vt(a) for a in t[2:])}) -> {self.vt(t[1])}'
        if k == 'exc':
            return 'Exc'
        if k == 'fn':
            return t[1]
        if k == 'mathint':
            return 'int'
        if k == 'thing':
            return 'Opaque'
        if k == 'ptr' and self.addr:
            return 'int'
        if k == 'ptr' and (t[1][0] == 'void' or t[1][0] == 'unk' and 'std::enable_if' in t[1][1]):
            return '()'
        if k == 'single':
            return 'bool'
        if k == 'argv':
            return 'Seq<CStr>'
        if k == 'own':
            return f'Own<{self.vt(t[1])}>'
        raise ExtractError(f'no Verus type for {t}')

    def sname(self, cls):
        return 'X' + sani(cls.replace('__Detail::', ''))

    def use(self, cls):
        if cls in self.used:
            return
        if cls not in self.ast.classes:
            raise ExtractError('unknown class ' + cls)
        self.used[cls] = None
        if cls in self.opaque:
            return
        self.used[cls] = self.fields(cls)

    def is_union(self, cls):
        return cls not in self.opaque and self.ast.classes.get(cls, {}).get('tagUsed') == 'union'

    def fields(self, cls):
        node = self.ast.classes[cls]
        fs = [x for x in node.get('inner', []) if x.get('kind') == 'FieldDecl']
        want = self.fieldnames.get(cls)
        out = []
        saved, self.ctx = self.ctx, cls
        for i, f in enumerate(fs):
            t = self.of(f)
            name = f.get('name')
            canon = name + '_k' if name in RUST_KW else name
            if want and len(want) == len(fs) and set(want) != {x.get('name') for x in fs}:
                canon = want[i]
            self.frename[(cls, name)] = canon
            out.append((canon, t, f))
        self.ctx = saved
        return out

    def struct_defs(self):
        done, out = set(), []
        while True:
            todo = [c for c in self.used if c not in done]
            if not todo:
                return '\n'.join(out)
            for c in todo:
                done.add(c)
                if c in self.opaque:
                    continue
                if self.is_union(c):
                    # which member is alive, and its value
                    out.append('#[verifier::ext_equal] pub enum %s { %s }' % (
                        self.sname(c), ', '.join(['Nothing'] + [f'{n}({self.vt(t)})' for n, t, _ in self.used[c]])))
                    continue
                out.append('#[verifier::ext_equal] pub struct %s { %s }' % (
                    self.sname(c), ', '.join(f'pub {n}: {self.vt(t)}' for n, t, _ in self.used[c]) or 'pub __e: ()'))


def var_extra(e):
    """what is statically known about a value stays known of a variable only when it cannot go stale"""
    return None if isinstance(e, tuple) and e and e[0] in ('it', 'of', 'condtext') else e


class Binding:
    def __init__(self, rust, t, path=None, src=None, extra=None, const_val=None):
        self.rust, self.t, self.path, self.src, self.extra, self.const_val = rust, t, path, src, extra, const_val


class Frame:
    """where `return` and `throw` go"""
    def __init__(self, kind, parent=None):
        self.kind = kind            # 'fn' | 'inline' | 'try'
        self.mark = self.tmark = 0
        self.parent = parent
        self.flag = None            # rust flag variable
        self.retvar = None
        self.rett = None
        self.excvar = None
        self.used = 0
        self.lvret = None


class Program:
    """one Verus crate: the functions of one check"""
    def __init__(self, ast, contracts, lib):
        self.ast = ast
        self.C = contracts           # list of Contract
        self.lib = lib
        self.T = Types(ast, lib.fieldnames)
        self.T.opaque = dict(lib.opaque)
        self.T.addr = lib.addr
        self.T.owned = lib.owned
        self.T.single = lib.T_single
        self.done = {}
        self.objects = {}            # ghost variable -> the static object it stands for
        self.queue = []
        self.fnames = {}
        self.obl = []                # (line -> label) filled by render
        self.notes = []
        self.structural = []         # mismatches between contract and code shape
        self.inlined = set()

    def contract(self, f):
        for c in self.C:
            if c.matches(f):
                return c
        return None

    def fname(self, f, suffix=''):
        k = f.id + suffix
        if k not in self.fnames:
            b = 'f_' + sani(strip_ns(f.qual).replace('__Detail::', '')) + ('_' + sani(suffix) if suffix else '')
            names = set(self.fnames.values())
            n, i = b, 2
            while n in names:
                n, i = f'{b}_{i}', i + 1
            self.fnames[k] = n
        return self.fnames[k]

    def want(self, f, variant=None):
        if (f.id, variant) not in self.done and (f, variant) not in self.queue:
            self.queue.append((f, variant))
            c = self.contract(f)
            if variant is None and c is not None:
                for al in c.alias:
                    self.want(f, al)

    def run(self, roots):
        for f in roots:
            self.want(f)
        out = []
        while self.queue:
            f, variant = self.queue.pop(0)
            if (f.id, variant) in self.done:
                continue
            x = Xlate(self, f, variant)
            self.done[(f.id, variant)] = x
            x.translate()
            out.append(x)
        return out


def normalise(items, inloop=False, local=frozenset()):
    """turn pending jumps into loop exits and guards; returns (items, pending flags)"""
    out, pend = [], []
    own = {i[1] for i in items if i[0] == 'letmut'}
    loc = local | own

    def add(fs):
        for f in fs:
            if f not in own and f not in pend:
                pend.append(f)
    for k, it in enumerate(items):
        p = []
        if it[0] == 'jump':
            f = it[1].flag
            add([f])
            if inloop and f not in loc:
                out.append(('break',))
            return out, pend
        if it[0] == 'if':
            a, pa = normalise(it[2], inloop, loc)
            b, pb = normalise(it[3], inloop, loc)
            it = ('if', it[1], a, b)
            p = pa + [f for f in pb if f not in pa]
        elif it[0] == 'loop':
            a, p = normalise(it[2], True, frozenset())
            sp = dict(it[1])
            sp['inv'] = [f'!{f}' for f in p] + sp['inv']
            if sp.get('exit'):
                sp['ens'] = sp['ens'] + [' || '.join(p + [sp['exit']])]
            it = ('loop', sp, a)
        elif it[0] == 'scope':
            a, p = normalise(it[1], inloop, loc)
            it = ('scope', a)
        out.append(it)
        if it[0] in ('return', 'break', 'continue', 'unreachable'):
            return out, pend
        live = [f for f in p if f not in own]
        add(live)
        if inloop:
            if it[0] == 'loop':
                for f in live:
                    if f not in loc:
                        out.append(('if', f, [('break',)], []))
            live = [f for f in live if f in loc]
        # flags of this very list: set inside the item just emitted only if that item is not their consumer
        if live and k + 1 < len(items):
            rest, pr = normalise(items[k + 1:], inloop, loc)
            add(pr)
            if rest:
                out.append(('if', ' && '.join('!' + f for f in live), rest, []))
            return out, pend
    return out, pend


def variant_name(v):
    return 'alias_' + sani('_'.join(v[1:])).rstrip('_') if v else ''


class Xlate:
    def __init__(self, prog, f, variant=None):
        self.P, self.f, self.T, self.ast, self.lib = prog, f, prog.T, prog.ast, prog.lib
        self.c = prog.contract(f)
        self.cur = []
        self.scopes = [{}]
        self.nt = 0
        self.loopk = 0
        self.frame = Frame('fn')
        self.this = None            # L or None
        self.loopstack = []         # continue actions
        self.line = f.node.get('_line')
        self.mut_out = []           # [(name, type)] outputs after r
        self.callcount = {}
        self.inline_stack = []
        # an alias variant (a, b): the reference parameter b is the object a itself
        self.alias = variant
        self.variant = variant_name(variant)
        self.label_name = strip_ns(f.qual) + (f' (with {variant[1]} = {"".join(variant[:1] + variant[2:])})' if variant else '')
        self.alias_req = []
        self.rust_of = {}
        self.used_names = set()
        self.obl_count = 0
        self.alive = []             # objects whose destructors run when their scope is left
        self.switches = []          # loop depth at each enclosing switch statement
        self.inner_ops = []         # operands that may lie inside the object `inner`
        self.in_inner = False
        self.temps = []             # temporaries destroyed at the end of the full expression

    # ---- destruction of locals and temporaries
    def tracked(self, t):
        return t[0] == 'cls' and t[1] in self.lib.dtors

    def dtor_of(self, cls):
        for x in self.ast.classes[cls].get('inner', []):
            if x.get('kind') == 'CXXDestructorDecl' and x['id'] in self.ast.funcs:
                f = self.ast.funcs[x['id']]
                return None if f.node.get('isImplicit') or f.node.get('explicitlyDefaulted') else f
        return None

    def drop_obj(self, l):
        f = self.dtor_of(l.t[1])
        if f is None:
            for canon, ft, fn in reversed(self.T.used.get(l.t[1]) or self.T.fields(l.t[1])):
                if self.tracked(ft):
                    self.drop_obj(self.field(l, l.t[1], fn['name']))
            return
        self.call_user(f, l, [])

    def inner_drop(self, h0):
        """the object at the ghost address `inner` holds the operands of this function: they are destroyed with it"""
        b, h = self.lookup('inner'), self.lookup('heap')
        if b is None or h is None or not self.inner_ops or self.in_inner:
            return
        self.in_inner = True
        with self.sub() as sb:
            for l in self.inner_ops:
                self.drop_obj(l)
                self.assign(l, f'arbitrary::<{self.T.vt(l.t)}>()')
        self.in_inner = False
        self.emit('if', f'{b.rust} != 0 && {h0}.live.contains({b.rust}) && !{h.rust}.live.contains({b.rust})', sb.items, [])

    def inner_places(self):
        r = []
        for l in self.inner_ops:
            r.append(l.p)
            fs = [fn['name'] for _, ft, fn in self.T.used.get(l.t[1]) or self.T.fields(l.t[1]) if self.tracked(ft)]
            if len(fs) == 1:        # an object whose only part with a destructor is this one
                r.append(self.field(l, l.t[1], fs[0]).p)
        return r

    def leave(self, mark, keep=None, tmark=0):
        """run the destructors of everything that came alive since `mark`"""
        ts, al = self.temps[tmark:], self.alive[mark:]
        for l in reversed(al + ts):
            if l is not keep:
                self.drop_obj(l)

    def flush_temps(self, mark):
        while len(self.temps) > mark:
            self.drop_obj(self.temps.pop())

    # ------------------------------------------------------------------ utils
    def fresh(self, base='t'):
        self.nt += 1
        return f'__{base}{self.nt}'

    def emit(self, *item):
        self.cur.append(item)

    def label(self, what):
        return f'{strip_ns(self.f.qual)}: {what} (line {self.line})'

    def oblig(self, cond, what):
        if cond in ('true', '(true)'):
            return
        self.emit('assert', cond, self.label(what))

    def sub(self):
        """context manager collecting items in a sub-buffer"""
        x = self

        class S:
            def __enter__(s):
                s.saved, x.cur = x.cur, []
                s.items = x.cur
                return s

            def __exit__(s, *a):
                s.items = x.cur
                x.cur = s.saved
        return S()

    @staticmethod
    def pure(items):
        return all(i[0] in ('assert', 'assume', 'let') for i in items)

    def merge_guarded(self, items, g):
        for i in items:
            if i[0] == 'assert':
                self.emit('assert', f'({g}) ==> ({i[1]})', i[2])
            elif i[0] == 'assume':
                self.emit('assume', f'({g}) ==> ({i[1]})')
            else:
                self.cur.append(i)

    def pname(self, cname):
        r = cname
        if r in RUST_KW or r.startswith('__'):
            r += '_k'
        return r

    def declare(self, cname, t, rust=None):
        """choose an unshadowed rust name"""
        r = rust or self.pname(cname)
        live = set()
        for s in self.scopes:
            for n, b in s.items():
                live.add(b.rust)
        base, i = r, 2
        while r in live or r in self.used_names and r in live:
            r, i = f'{base}_{i}', i + 1
        b = Binding(r, t)
        self.scopes[-1][cname] = b
        return b

    def lookup(self, cname):
        for s in reversed(self.scopes):
            if cname in s:
                return s[cname]
        return None

    # ------------------------------------------------------------------ paths
    def read(self, x):
        if isinstance(x, V):
            return x
        if x.t[0] == 'own':
            raise ExtractError('an owning pointer is copied')
        return V(self.rd(x.p), x.t, src=x.src, extra=x.extra)

    def rd(self, p):
        k = p[0]
        if k == 'v':
            return p[1]
        if k == 'f':
            return f'{self.rd(p[1])}.{p[2]}'
        if k == 'i':
            return f'{self.rd(p[1])}[{p[2]}]'
        if k == 'mk':      # value of map (assoc list) at index
            return f'{self.rd(p[1])}[{p[2]}]'
        if k == 'c':
            return p[1]
        if k == 'sink':    # a file stream used as an output stream: what is added to it goes to the file
            return 'Seq::<u8>::empty()'
        if k == 'u':       # union member: payload of the enum variant
            return f'{self.rd(p[1])}->{p[2]}_0'
        raise ExtractError(f'read path {p}')

    def upd(self, p, val):
        """returns (root var, new value of root)"""
        k = p[0]
        if k == 'v':
            return p[1], val
        if k == 'f':
            b = self.rd(p[1])
            if p[3].startswith('@all'):
                return self.upd(p[1], f'{p[3][4:]} {{ {p[2]}: {val} }}')
            return self.upd(p[1], f'{p[3]} {{ {p[2]}: {val}, ..{b} }}')
        if k == 'i':
            return self.upd(p[1], f'{self.rd(p[1])}.update({p[2]}, {val})')
        if k == 'u':
            return self.upd(p[1], f'{p[3]}::{p[2]}({val})')
        raise ExtractError(f'write to {p}')

    def assign(self, l, val):
        if not isinstance(l, L):
            raise ExtractError('assignment to rvalue')
        if isinstance(l.extra, tuple) and l.extra:
            raise ExtractError('reassigned map or set iterator')
        if l.p[0] == 'sink':
            return self.lib.file_put(self, l.p[1], val)
        r, e = self.upd(l.p, val)
        self.emit('set', r, e)

    def field(self, base, cls, fname, raw=False):
        """L/V . field"""
        fs = {n: t for n, t, _ in (self.T.used.get(cls) or self.T.fields(cls))}
        self.T.use(cls)
        canon = self.T.frename.get((cls, fname), fname)
        t = fs[canon]
        if self.T.is_union(cls):
            if not isinstance(base, L):
                base = L(('c', base.e), base.t)
            if not raw:
                self.oblig(f'{self.rd(base.p)} is {canon}', f'the union holds `{fname}` when `{fname}` is used')
            return L(('u', base.p, canon, self.T.sname(cls)), t)
        if isinstance(base, L):
            nm = self.T.sname(cls)
            if len(fs) == 1:
                nm = '@all' + nm
            return L(('f', base.p, canon, nm), t)
        return V(f'{base.e}.{canon}', t)

    # ------------------------------------------------------------------ function
    def translate(self):
        f = self.f
        node = f.node
        self.params = []
        rt = self.T.parse(self.rettype(f))
        self.ret_is_this_ref = False
        is_ctor = f.kind == 'CXXConstructorDecl'
        if is_ctor:
            rt = ('cls', strip_ns(f.cls['_qual']))
        elif f.kind == 'CXXDestructorDecl':
            rt = ('void',)
        if self.T.has_unk(self.T.unref(rt)):
            rt = self.ret_from_body(f) or rt
        self.rt = rt
        self.scopes = [{}]
        sig = []
        c = self.c
        self.globals = list(c.globals) if c else []
        for g, gt in self.globals:
            sig.append((g, gt))
            self.scopes[0][g] = Binding(g, ('fn', gt))
            self.mut_out.append((g, gt))
        # this
        if f.cls is not None and not f.is_static and not is_ctor:
            ct = ('cls', strip_ns(f.cls['_qual']))
            self.this = L(('v', 'this'), ct)
            self.scopes[0]['this'] = Binding('this', ct)
            if self.alias and self.alias[1] == 'this':      # *this lies inside an operand
                pass
            else:
                sig.append(('this', self.T.vt(ct)))
            if self.alias and self.alias[1] == 'this':
                pass
            elif not f.is_const:
                self.mut_out.append(('this', self.T.vt(ct)))
        for i, p in enumerate(f.params):
            pn = p.get('name') or f'__p{i}'
            if pn in self.scopes[0] and pn in [q.get('name') for q in f.params[:i]]:
                pn = f'{pn}_{i}'        # an expanded parameter pack repeats the name
            if c and c.params and i < len(c.params) and c.params[i] != pn:
                # contract parameter names are positional
                alias = c.params[i]
            else:
                alias = pn
            t = self.ptype_of(f, i, p)
            if self.alias and alias == self.alias[1] and len(self.alias) > 2:
                b = Binding(None, self.T.unref(t), path=owned.alias_path(self, sig))
                self.scopes[0][pn] = self.scopes[0][alias] = b
                continue
            if self.alias and alias == self.alias[1]:
                b = Binding(None, self.T.unref(t), path=self.lookup(self.alias[0]).path or ('v', self.lookup(self.alias[0]).rust))
                self.scopes[0][pn] = self.scopes[0][alias] = b
                continue
            if t[0] == 'rref' and t[1][0] != 'unk' or t[0] == 'ref' and not t[2] or self.alias and self.alias[1] == 'this' and self.alias[0] == alias:
                u = t[1]
                self.mut_out.append((self.pname(alias), self.T.vt(u)))
            u = self.T.unref(t)
            b = Binding(self.pname(alias), u)
            if t[0] in ('ref', 'rref') and self.tracked(u):
                self.inner_ops.append(L(('v', b.rust), u))
            b.extra = self.param_extra(p, u)
            self.scopes[0][pn] = self.scopes[0]['#' + p.get('id', '')] = b
            if alias != pn:
                self.scopes[0].setdefault(alias, b)
            self.rust_of[alias] = b.rust
            sig.append((b.rust, self.T.vt(u)))
            if t[0] not in ('ref', 'rref') and self.tracked(u):        # destroyed when the function is left
                self.alive.append(L(('v', b.rust), u))
        if self.alias and self.alias[1] == 'this':
            self.this = L(owned.alias_path(self, sig), self.this.t)
            self.scopes[0]['this'] = Binding(None, self.this.t, path=self.this.p)
        self.sig = sig
        ret_vt = self.T.vt(self.T.unref(rt))
        self.returns_this = rt[0] == 'ref' and rt[1][0] == 'cls' and not is_ctor and f.cls is not None and \
            rt[1][1] == strip_ns(f.cls['_qual']) and not rt[2]
        if self.returns_this:
            ret_vt = '()'
        if c and c.lv:
            self.returns_this, ret_vt, self.rt = False, 'int', ('mathint',)
        self.returns_p0 = self.chains(f, rt)
        self.ret_vt = ret_vt
        self.local_rd = {}
        if is_ctor:
            self.this = L(('v', 'this'), rt)
            self.scopes[0]['this'] = Binding('this', rt)
        # body
        for n, t in sig:
            self.emit('let', n + '0', t, n)
        for n, t in sig:
            self.emit('letmut', n, t, n)
        for b in {id(b): b for b in self.scopes[0].values()}.values():
            if b.rust and b.t and any(n == b.rust for n, _ in sig):
                for s in self.containers(b.rust, b.t):
                    self.emit('assume', f'{s}.len() <= {MAXLEN}')
        if c and c.trusted:
            self.items = []
            return
        early = is_ctor and c and c.entry and not re.search(r'\bthis\b', c.entry)
        if early:
            self.hint(c.entry)
        if is_ctor:
            self.emit_ctor_init(f)
        if c and c.entry and not early:
            self.hint(c.entry)
        self.body(f)
        if f.body is not None and not self.ends(self.cur):
            if self.ret_vt != '()' and not is_ctor:
                self.oblig('false', 'control does not run off the end of a function that returns a value')
                self.do_return(V(f'arbitrary::<{self.ret_vt}>()', self.T.unref(rt)))
            else:
                self.do_return(None)
        self.items = normalise(self.cur)[0]

    def aliased(self, text):
        text = re.sub(r'\bALIAS\b', 'true' if self.alias else 'false', text)
        if self.alias:
            a, b = self.alias[:2]
            b0 = 'this' if a == 'this' else self.rust_of.get(a, a)
            text = subst(text, {b: b0, b + '0': b0, b + '1': b0 + '1'} if len(self.alias) == 2 else {b + e: owned.alias_text(self, b0 + e) for e in ('', '0', '1')})
        return text

    def param_extra(self, p, t):
        return None

    def ptype_of(self, f, i, p):
        self.setctx(f)
        t = self.T.of(p)
        q = p.get('type', {}).get('qualType', '')
        if t[0] not in ('ref', 'rref'):
            if q.strip().endswith('&&'):
                t = ('rref', t)
            elif q.strip().endswith('&'):
                t = ('ref', t, q.strip().startswith('const'))
        return t

    def setctx(self, f):
        self.T.ctx = strip_ns(f.cls['_qual']) if f.cls is not None else strip_ns(f.qual).rpartition('::')[0]

    def rettype(self, f):
        self.setctx(f)
        m = re.match(r'^auto\s*\(.*\)\s*(const)?\s*->\s*(.*)$', f.type)
        if m:
            return m.group(2)
        d = 0
        # text up to the parameter list
        s = f.type
        i = 0
        while i < len(s):
            ch = s[i]
            if ch == '<':
                d += 1
            elif ch == '>':
                d -= 1
            elif ch == '(' and d == 0:
                return s[:i].strip()
            i += 1
        return s

    def ret_type(self, f):
        rt = self.T.parse(self.rettype(f))
        if self.T.has_unk(self.T.unref(rt)):
            rt = self.ret_from_body(f) or rt
        return rt

    def ret_from_body(self, f):
        """a return type spelled through type traits: the type of the returned expressions"""
        ts = []

        def walk(n):
            if n.get('kind') == 'LambdaExpr':
                return
            if n.get('kind') == 'ReturnStmt':
                ts.extend(self.T.of(x) for x in n.get('inner', []) if x)
            for x in n.get('inner', []):
                if x:
                    walk(x)
        if f.body is None:
            return None
        walk(f.body)
        ts = [t for t in ts if not self.T.has_unk(t)]
        return ts[0] if ts and all(t == ts[0] for t in ts) else None

    def containers(self, e, t):
        # every container that exists fits into memory
        if t[0] in ('vec', 'str'):
            return [e]
        if t[0] == 'cls' and t[1] in self.T.used and self.T.used[t[1]]:
            return [f'{e}.{c}' for c, ft, _ in self.T.used[t[1]] if ft[0] in ('vec', 'str')]
        return []

    def emit_ctor_init(self, f):
        cls = strip_ns(f.cls['_qual'])
        self.T.use(cls)
        vt = self.T.vt(('cls', cls))
        deleg = [i for i in f.inits if 'delegatingInit' in i]
        if deleg:
            v = self.rv(deleg[0]['inner'][0])
            self.emit('letmut', 'this', vt, v.e)
            return
        fs = self.T.used[cls]
        inits = {}
        for i in f.inits:
            if 'anyInit' in i:
                inits[i['anyInit']['name']] = i
            elif 'baseInit' in i:
                pass
            else:
                raise ExtractError(f'initializer {i}')
        vals = []
        for canon, t, fn in fs:
            name = fn['name']
            e = None
            if name in inits and inits[name].get('inner'):
                x = inits[name]['inner'][0]
                if x.get('kind') == 'CXXDefaultInitExpr':
                    e = self.default_field(fn, t)
                else:
                    e = self.init_value(x, t)
            elif any(x.get('kind') for x in fn.get('inner', [])) and fn.get('hasInClassInitializer'):
                e = self.default_field(fn, t)
            elif t[0] in ('vec', 'str', 'oss', 'ss', 'map', 'cls', 'uset', 'umap'):
                e = self.default_value(t)
            else:
                e = self.uninit(t)
            tmp = self.fresh('f')
            self.emit('let', tmp, self.T.vt(t), e)
            vals.append(f'{canon}: {tmp}')
        self.emit('letmut', 'this', vt, f'{vt} {{ {", ".join(vals) or "__e: ()"} }}')

    def uninit(self, t):
        return self.anyv(t)

    def anyv(self, t):
        v = self.fresh('any')
        self.emit('any', v, self.T.vt(t))
        return v

    def default_field(self, fn, t):
        ini = [x for x in fn.get('inner', []) if x.get('kind') and not x['kind'].endswith(('Attr', 'Comment'))]
        if not ini:
            raise ExtractError(f'initialiser of member {fn.get("name")}')
        return self.init_value(ini[0], t)

    def default_value(self, t):
        k = t[0]
        if k == 'int':
            return f'0{INTTYPES[t[1:]]}'
        if k == 'char':
            return '0u8'
        if k == 'enum':
            return f'0{self.T.vt(t)}'
        if k == 'bool':
            return 'false'
        if k in ('str', 'oss', 'vec', 'map'):
            et = 'u8' if k in ('str', 'oss') else self.T.vt(self.T.elem(t))
            return f'Seq::<{et}>::empty()'
        if k == 'ss':
            return 'ss_new(Seq::<u8>::empty())'
        if k == 'uset':
            return f'Set::<{self.T.vt(t[1])}>::empty()'
        if k == 'null':
            return '()'
        if k == 'fstream':
            return 'fstr_new()'
        if k == 'ptr' and self.T.addr:
            return '0int'
        if k == 'own':
            return 'Own::Null'
        if k == 'flt':
            return {'float': 'f32_zero()', 'double': 'f64_zero()', 'long double': 'f80_zero()'}[t[1]]
        if k == 'opq':
            return f'arbitrary::<{self.T.vt(t)}>()'
        if k == 'thing':
            return self.anyv(t)
        if k == 'cls' and self.T.is_union(t[1]):
            self.T.use(t[1])
            return f'{self.T.vt(t)}::Nothing'
        if k == 'cls':
            ctor = self.find_ctor(t[1], 'void ()')
            if ctor is None or ctor.node.get('isImplicit') or ctor.node.get('explicitlyDefaulted') or ctor.body is None and self.P.contract(ctor) is None:
                self.T.use(t[1])
                fs = self.T.used[t[1]]
                if fs is None:
                    return f'arbitrary::<{self.T.vt(t)}>()'
                vals = []
                for canon, ft, fn in fs:
                    if fn.get('hasInClassInitializer'):
                        vals.append(f'{canon}: {self.default_field(fn, ft)}')
                    elif ft[0] in ('int', 'char', 'bool', 'enum', 'flt', 'cstr', 'ptr', 'fn'):
                        vals.append(f'{canon}: {self.uninit(ft)}')
                    else:
                        vals.append(f'{canon}: {self.default_value(ft)}')
                return f'{self.T.vt(t)} {{ {", ".join(vals) or "__e: ()"} }}'
            return self.call_user(ctor, None, []).e
        raise ExtractError(f'default value of {t}')

    def find_ctor(self, cls, sig):
        node = self.ast.classes[cls]
        cands = []
        for x in node.get('inner', []):
            if x.get('kind') == 'CXXConstructorDecl':
                cands.append(self.ast.funcs[x['id']])
            if x.get('kind') == 'FunctionTemplateDecl':
                for y in x.get('inner', []):
                    if y.get('kind') == 'CXXConstructorDecl' and any(
                            z.get('kind') == 'TemplateArgument' for z in y.get('inner', [])):
                        cands.append(self.ast.funcs[y['id']])
        w = norm_sig(sig)
        for c in cands:
            if norm_sig(c.type) == w:
                return c
        # compare by parsed parameter types
        self.T.ctx = cls
        wt = self.sigtypes(sig)
        for c in cands:
            if self.sigtypes(c.type) == wt:
                return c
        return None

    def sigtypes(self, sig):
        s = re.sub(r'\bnoexcept\b.*$', '', sig).strip()
        i = s.index('(')
        inner = s[i + 1:s.rindex(')')]
        return [self.T.parse(a) for a in split_args(inner)]

    def hint(self, text, extra=None):
        text = self.ctext(text, extra)
        while True:      # ghost names bound by a hint stay visible after it
            m = re.match(r'\s*let ghost (\w+) = ([^;]*);', text)
            if not m:
                break
            self.emit('let', m.group(1), None, m.group(2))
            text = text[m.end():]
        if text.strip():
            self.emit('proof', text)

    def ctext(self, text, extra=None):
        """contract text -> text over current rust names"""
        m = {}
        for s in self.scopes:
            for n, b in s.items():
                if b.path is not None:
                    m[n] = self.rd(b.path)
                elif b.const_val is not None:
                    m[n] = b.const_val
                else:
                    m[n] = b.rust
        if self.c and self.c.locals:
            m.update(self.rename_missing(m))
        if extra:
            m.update(extra)
        m = {k: v for k, v in m.items() if k != v}
        return subst(text, m)

    def rename_missing(self, have):
        """contract local names absent from the code: match them by type and order of declaration"""
        out = {}
        miss = [(n, t) for n, t in self.c.locals if n not in have]
        if not miss:
            return out
        known = {n for n, _ in self.c.locals}
        pool = []
        for s in self.scopes:
            for n, b in s.items():
                if n not in known and n != 'this' and b.rust not in [x for x, _ in self.sig]:
                    try:
                        pool.append((n, self.T.vt(b.t), b))
                    except ExtractError:
                        pass
        for n, t in miss:
            for p in pool:
                if p[1] == t:
                    b = p[2]
                    out[n] = self.rd(b.path) if b.path is not None else b.rust
                    pool.remove(p)
                    break
        return out

    def body(self, f):
        b = f.body
        if b is None:
            raise ExtractError(f'no body for {f.qual}')
        if b.get('kind') == 'CXXTryStmt':
            self.stmt(b)
        else:
            self.block(b.get('inner', []))

    @staticmethod
    def ends(items):
        if not items:
            return False
        i = items[-1]
        if i[0] == 'return':
            return True
        if i[0] == 'scope':
            return Xlate.ends(i[1])
        if i[0] == 'if':
            return Xlate.ends(i[2]) and Xlate.ends(i[3])
        return i[0] in ('unreachable',)

    # ------------------------------------------------------------------ return/throw
    def outs(self):
        return [n for n, _ in self.mut_out]

    def do_return(self, v):
        fr = self.frame
        while fr.kind == 'try':
            fr = fr.parent
        if fr.kind == 'fn':
            if len(self.alive) or self.temps:
                if v is not None and self.ret_vt != '()' and self.f.kind != 'CXXConstructorDecl':
                    r = self.fresh('ret')
                    self.emit('let', r, self.ret_vt, v.e)
                    v = V(r, v.t)
                self.leave(0, keep=self.nrvo)
            if self.f.kind == 'CXXConstructorDecl':
                e = 'this'
            elif self.ret_vt == '()':
                e = '()'
            else:
                e = v.e if v is not None else '()'
            if e != '()' and (self.c and self.c.ret):
                r = self.fresh('ret')
                self.emit('let', r, self.ret_vt, e)
                e = r
            if self.c and self.c.ret:
                self.hint(self.c.ret, {'r': e})
            self.emit('return', 'Exc::None', e, self.label('postconditions at return'))
        else:
            fr.used += 1
            if fr.rett is not None and fr.rett[0] != 'void' and v is not None:
                self.emit('set', fr.retvar, v.e)
            self.leave(fr.mark, keep=self.nrvo, tmark=fr.tmark)
            self.emit('set', fr.flag, 'true')
            self.jumped(fr)

    def jumped(self, fr):
        self.emit('jump', fr)

    def do_throw(self, kind):
        fr = self.frame
        while fr is not None and fr.kind == 'inline':
            fr = fr.parent
        if fr.kind == 'try':
            fr.used += 1
            if len(self.alive) > fr.mark or len(self.temps) > fr.tmark:
                k = self.fresh('ek')
                self.emit('let', k, 'Exc', kind)
                kind = k
                self.leave(fr.mark, tmark=fr.tmark)
            self.emit('set', fr.excvar, kind)
            self.emit('set', fr.flag, 'true')
            self.jumped(fr)
        else:
            if self.alive or self.temps:
                k = self.fresh('ek')
                self.emit('let', k, 'Exc', kind)
                kind = k
                self.leave(0)
            self.emit('return', kind, f'arbitrary::<{self.ret_vt}>()' if self.ret_vt != '()' else '()',
                      self.label('postconditions at throw'))

    # ------------------------------------------------------------------ statements
    def block(self, stmts):
        self.scopes.append({})
        mark = len(self.alive)
        try:
            before = len(self.cur)
            self.seq([s for s in stmts if s])
            new = self.cur[before:]
            if len(self.alive) > mark and not (self.ends(new) or any(x[0] in ('jump', 'break', 'continue') for x in new)):
                self.leave(mark, tmark=len(self.temps))
        finally:
            self.scopes.pop()
            del self.alive[mark:]

    def seq(self, stmts):
        # code after a pending jump is guarded by `normalise`
        for s in stmts:
            before = len(self.cur)
            self.stmt(s)
            new = self.cur[before:]
            if self.ends(new) or any(x[0] in ('jump', 'break', 'continue') for x in new):
                return

    def pending_check(self):
        pass

    def lvalue_use(self, n):
        """is this subscript the non-const overload"""
        c = n['inner'][0]
        while c['kind'] in ('ParenExpr', 'ImplicitCastExpr'):
            c = c['inner'][0]
        q = c.get('referencedDecl', {}).get('type', {}).get('qualType', '')
        return not re.search(r'\)\s*const', q)

    def keep(self, v, mark):
        """`v` was read before the effects emitted since `mark`: name its value there if they may change it"""
        if isinstance(v, V) and v.c is None and not self.pure(self.cur[mark:]) and v.t[0] not in (
                'lambda', 'fnref', 'thisptr', 'addr', 'null', 'ilist', 'fnptr', 'ios', 'memorder', 'defaultarg'):
            try:
                vt = self.T.vt(v.t)
            except ExtractError:
                return v
            t = self.fresh('k')
            self.cur.insert(mark, ('let', t, vt, v.e))
            return V(t, v.t, src=v.src)
        return v

    def jumps(self, items):
        out = []
        for i in items:
            if i[0] == 'jump':
                if i[1] not in out:
                    out.append(i[1])
            elif i[0] == 'if':
                for x in self.jumps(i[2]) + self.jumps(i[3]):
                    if x not in out:
                        out.append(x)
            elif i[0] == 'loop':
                for x in self.jumps(i[2]):
                    if x not in out:
                        out.append(x)
            elif i[0] == 'scope':
                for x in self.jumps(i[1]):
                    if x not in out:
                        out.append(x)
        # a frame that is closed inside `items` is not pending
        return [fr for fr in out if not getattr(fr, 'closed', False)]

    def stmt(self, n):
        if '_line' in n and n['_line']:
            self.line = n['_line']
        k = n['kind']
        m = getattr(self, 's_' + k, None)
        tm = len(self.temps)
        if m:
            m(n)
        else:
            self.expr(n)            # expression statement
        if len(self.temps) > tm:
            if self.ends(self.cur) or self.cur and self.cur[-1][0] in ('jump', 'break', 'continue'):
                del self.temps[tm:]
            else:
                self.flush_temps(tm)

    def s_CompoundStmt(self, n):
        with self.sub() as sb:
            self.block(n.get('inner', []))
        if sb.items:
            if any(i[0] in ('let', 'letmut') for i in sb.items):
                self.emit('scope', sb.items)
            else:
                self.cur.extend(sb.items)

    def s_NullStmt(self, n):
        pass

    def s_DeclStmt(self, n):
        for d in n.get('inner', []):
            if d['kind'] == 'VarDecl':
                self.vardecl(d)
            elif d['kind'] in ('TypeAliasDecl', 'TypedefDecl', 'UsingDecl', 'StaticAssertDecl', 'CXXRecordDecl',
                               'UsingDirectiveDecl', 'EmptyDecl', 'EnumDecl'):
                pass
            else:
                raise ExtractError('decl ' + d['kind'])

    def program_object(self, d, t):
        """a static local of a contract: the ghost variable of its type stands for the one object the program has of it"""
        ini = [x for x in d.get('inner', []) if x.get('kind') and not x['kind'].endswith('Attr')]
        if t[0] != 'cls' or d.get('tls') or any(x['kind'] != 'CXXConstructExpr' or x.get('inner') for x in ini):
            return False
        for g, gt in self.globals:
            if gt == self.T.vt(t):
                if self.P.objects.setdefault(g, d['id']) != d['id']:
                    raise ExtractError(f'two objects for {g}')
                b = self.declare(d['name'], t)
                b.path = ('v', g)
                return True
        return False

    def vardecl(self, d):
        name = d['name']
        q = d.get('type', {}).get('qualType', '')
        t = self.T.of(d)
        isref = t[0] in ('ref', 'rref')
        if d.get('storageClass') == 'static' and not isref and not q.startswith('const') and not self.readonly(self.cur_body(), d['id']):
            if self.program_object(d, t):
                return
            raise ExtractError(f'static local {name} that may change')
        if not isref and q.strip().endswith('&'):
            isref, t = True, ('ref', t, q.startswith('const'))
        ini = [x for x in d.get('inner', []) if x.get('kind') and not x['kind'].endswith('Attr')]
        if isref:
            x = self.expr(ini[0])
            if isinstance(x, L):
                b = self.declare(name, x.t)
                b.path = self.freeze(x.p)
                b.src = x.src
                if any(x is t for t in self.temps):     # lifetime extended to that of the reference
                    self.temps = [t for t in self.temps if t is not x]
                    self.alive.append(x)
            else:
                b = self.declare(name, x.t)
                self.emit('letmut', b.rust, self.T.vt(x.t), x.e)
                b.src, b.extra = x.src, var_extra(x.extra)
            return
        if t[0] == 'unk' or t[0] == 'cls' and 'lambda' in q:
            # lambda or function object
            x = self.expr(ini[0])
            b = self.declare(name, x.t)
            b.extra = x.extra
            return
        if t[0] == 'own':
            return owned.declare(self, d, t, ini)
        if ini:
            x = self.init_rv(ini[0], t)
            e = x.e
            src, extra = x.src, x.extra
        else:
            e = self.default_value(t) if t[0] in ('vec', 'str', 'oss', 'ss', 'cls', 'map', 'uset', 'umap', 'fstream') else self.uninit(t)
            src = extra = None
        b = self.declare(name, t)
        b.src, b.extra = src, var_extra(extra)
        self.emit('letmut', b.rust, self.T.vt(t), e)
        if ini and t[0] == 'cls':
            for s in self.containers(b.rust, t):
                self.emit('assume', f'{s}.len() <= {MAXLEN}')
        if self.tracked(t):
            l = L(('v', b.rust), t)
            b.path = l.p
            self.alive.append(l)

    def cur_body(self):
        return (self.ast.funcs[self.inline_stack[-1]] if self.inline_stack else self.f).body

    def readonly(self, n, vid, const=False):
        """is the variable only ever used as a const object"""
        if n.get('kind') == 'DeclRefExpr' and n.get('referencedDecl', {}).get('id') == vid:
            return const
        c = n.get('kind') == 'ImplicitCastExpr' and (n.get('castKind') == 'LValueToRValue' or n.get('type', {}).get('qualType', '').startswith('const '))
        return all(self.readonly(x, vid, c) for x in n.get('inner', []) if x)

    def freeze(self, p):
        if p[0] == 'i':
            base = self.freeze(p[1])
            if re.match(r'^(__\w+|\d+)$', p[2]):
                return ('i', base, p[2])
            t = self.fresh('k')
            self.emit('let', t, 'int', p[2])
            return ('i', base, t)
        if p[0] in ('f', 'u'):
            return (p[0], self.freeze(p[1])) + p[2:]
        return p

    def init_rv(self, n, t):
        x = self.rv(n)
        return x

    def init_value(self, n, t):
        if n.get('kind') == 'InitListExpr' and not n.get('inner'):
            return self.default_value(t)
        if n.get('kind') == 'ImplicitValueInitExpr':
            return self.default_value(t)
        return self.rv(n).e

    def cond(self, n):
        tm = len(self.temps)
        v = self.rv(n)
        self._lastconst = v.c
        if len(self.temps) > tm:
            c = self.fresh('cd')
            self.emit('let', c, 'bool', v.e)
            self.flush_temps(tm)
            return c
        return v.e

    def s_IfStmt(self, n):
        inner = n['inner']
        i = 0
        if n.get('hasInit') or n.get('hasVar'):
            rest = {k: v for k, v in n.items() if k not in ('hasInit', 'hasVar')}
            d = int(bool(n.get('hasInit'))) + int(bool(n.get('hasVar')))
            rest['inner'] = inner[d:]
            return self.s_CompoundStmt(dict(inner=inner[:d] + [rest]))
        c = self.cond(inner[0])
        cv = getattr(self, '_lastconst', None)
        dead = self.alias is not None and cv is False and not re.search(r"'kind': '(For|While|Do|CXXForRange)", str(inner[1]))
        with self.sub() as a:
            if not dead:
                self.block([inner[1]] if inner[1]['kind'] != 'CompoundStmt' else inner[1].get('inner', []))
        b_items = []
        if len(inner) > 2:
            with self.sub() as b:
                self.block([inner[2]] if inner[2]['kind'] != 'CompoundStmt' else inner[2].get('inner', []))
            b_items = b.items
        self.emit('if', c, a.items, b_items)

    def chains(self, f, rt):
        """free functions handing their (mutable) first argument back, as stream operators do"""
        if f.cls is not None or not f.params or rt[0] != 'ref' or rt[2] or rt[1][0] not in ('ostream', 'istream'):
            return False
        return self.ptype_of(f, 0, f.params[0]) == rt

    nrvo = None

    def returned_local(self, x):
        """the tracked local a return statement names: it becomes the result instead of being destroyed"""
        while x.get('kind') in ('ExprWithCleanups', 'ParenExpr', 'ImplicitCastExpr', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr') or \
                x.get('kind') == 'CXXConstructExpr' and x.get('elidable') and len([y for y in x.get('inner', []) if y]) == 1:
            x = [y for y in x['inner'] if y][0]
        if x.get('kind') != 'DeclRefExpr':
            return None
        b = self.lookup(x.get('referencedDecl', {}).get('name'))
        if b is None or b.path is None:
            return None
        for l in self.alive:
            if l.p == b.path:
                return l
        return None

    def s_ReturnStmt(self, n):
        inner = [x for x in n.get('inner', []) if x]
        if not inner:
            return self.do_return(None)
        self.nrvo = self.returned_local(inner[0])
        try:
            return self.s_return(n, inner)
        finally:
            self.nrvo = None

    def s_return(self, n, inner):
        fr = self.frame
        while fr.kind == 'try':
            fr = fr.parent
        if fr.kind == 'inline' and fr.lvret is not None:
            fr.lvret.append(self.expr(inner[0]))
            return
        if fr.kind == 'fn' and self.c and self.c.lv:
            x = self.expr(inner[0])
            if not isinstance(x, L):
                raise ExtractError('reference to a temporary returned')
            return self.do_return(V(owned.lv_index(self, self.c, x), ('mathint',)))
        if fr.kind == 'fn' and self.returns_this:
            x = self.expr(inner[0])
            if isinstance(x, L) and x.p == self.this.p:
                return self.do_return(None)
            raise ExtractError('mutable reference returned to something other than *this')
        if fr.kind == 'fn' and self.returns_p0:
            x = self.expr(inner[0])
            if isinstance(x, L) and x.p == ('v', self.sig[0][0]):
                return self.do_return(V(self.read(x).e, x.t))
            raise ExtractError('stream reference returned that is not the first argument')
        if fr.kind == 'fn' and self.rt[0] == 'void' or fr.kind == 'inline' and fr.rett[0] == 'void':
            self.expr(inner[0])
            return self.do_return(None)
        x = inner[0]
        rt = self.T.unref(self.rt if fr.kind == 'fn' else fr.rett)
        if x.get('kind') == 'InitListExpr' and not x.get('inner'):
            v = V(self.default_value(rt), rt)
        else:
            v = self.rv(x)
        self.do_return(v)

    def s_BreakStmt(self, n):
        if self.switches and self.switches[-1] == len(self.loopstack):
            raise ExtractError('break inside nested switch statement')
        ls = self.loopstack[-1]
        ls['brk'] = True
        self.leave(ls.get('mark', len(self.alive)), tmark=len(self.temps))
        self.emit('break')
        self.emit('unreachable')

    def s_ContinueStmt(self, n):
        ls = self.loopstack[-1]
        self.leave(ls.get('mark', len(self.alive)), tmark=len(self.temps))
        if ls.get('inc'):
            ls['inc']()
        if ls.get('endhint'):
            self.hint(ls['endhint'])
        self.emit('continue')
        self.emit('unreachable')

    def loop_spec(self):
        k = self.loopk
        self.loopk += 1
        if self.c and k < len(self.c.loops):
            return self.c.loops[k]
        return {}

    def s_WhileStmt(self, n):
        inner = [x for x in n['inner']]
        self.gen_loop(n, inner[-2], inner[-1], None)

    def s_ForStmt(self, n):
        init, cv, c, inc, body = n['inner']
        with self.sub() as sb:
            self.scopes.append({})
            if init:
                self.stmt(init)
            self.gen_loop(n, c or None, body, inc or None)
            self.scopes.pop()
        self.emit('scope', sb.items)

    def s_DoStmt(self, n):
        body, c = n['inner']
        spec = self.loop_spec()
        self.gen_loop(n, c, body, None, post=True, spec=spec)

    def gen_loop(self, n, c, body, inc, post=False, spec=None, pre=None):
        spec = spec if spec is not None else self.loop_spec()
        if spec.get('before'):
            self.hint(spec['before'])
        info = dict(kind='loop', brk=False, mark=len(self.alive), depth=len(self.loopstack) + 1, endhint=spec.get('end'))
        if inc:
            def doinc():
                self.expr(inc)
            info['inc'] = doinc
        inv = [self.ctext(i) for i in spec.get('inv', [])]
        with self.sub() as sb:
            ccond, cpure = 'true', True
            self.loopstack.append(info)
            if spec.get('head'):
                self.hint(spec['head'])
            if c and not post:
                with self.sub() as cb:
                    ccond = self.cond(c)
                cpure = self.pure(cb.items)
                self.cur.extend(cb.items)
                self.emit('if', f'!({ccond})', [('break',)], [])
            if spec.get('start'):
                self.hint(spec['start'])
            before = len(self.cur)
            self.block([body] if body['kind'] != 'CompoundStmt' else body.get('inner', []))
            ended = self.ends(self.cur[before:])
            js = self.jumps(self.cur[before:])
            if not ended:
                if js:
                    pass
                if inc:
                    self.expr(inc)
                if spec.get('end'):
                    self.hint(spec['end'])
                if post:
                    with self.sub() as cb:
                        ccond = self.cond(c)
                    cpure = self.pure(cb.items)
                    self.cur.extend(cb.items)
                    self.emit('if', f'!({ccond})', [('break',)], [])
            self.loopstack.pop()
        ens = [self.ctext(e) for e in spec.get('ens', [])]
        local = {i[1] for i in sb.items if i[0] in ('let', 'letmut')}
        ex = None
        if c and cpure and not info['brk'] and not (idents(ccond) & local):
            ex = f'!({ccond})'
        dec = spec.get('dec')
        self.emit('loop', dict(inv=inv, ens=ens, exit=ex, dec=self.ctext(dec) if dec else None,
                               label=self.label('loop invariant'), line=self.line), sb.items)
        if spec.get('after'):
            self.hint(spec['after'])

    def s_CXXForRangeStmt(self, n):
        inner = [x for x in n['inner'] if x]
        # rangeDecl, beginDecl, endDecl, cond, inc, loopVarDecl, body
        rdecl = inner[0]['inner'][0] if inner[0]['kind'] == 'DeclStmt' else None
        body = inner[-1]
        lv = inner[-2]['inner'][0]
        rng = self.expr(rdecl['inner'][0])
        spec = self.loop_spec()
        spec = dict(spec)
        if not isinstance(rng, L):
            t = self.fresh('rng')
            self.emit('let', t, self.T.vt(rng.t), rng.e)
            rng = L(('c', t), rng.t)
        else:
            rng = L(self.freeze(rng.p), rng.t)
        if rng.t[0] == 'cls':
            rng = self.class_range(rng)
        et = self.T.elem(rng.t)
        with self.sub() as sb:
            self.scopes.append({})
            idx = self.declare('_i', ('mathint',))
            idx.rust = self.fresh('ri')
            self.emit('letmut', idx.rust, 'int', '0')
            if spec.get('before'):
                self.hint(spec['before'])
            inv = [f'0 <= {idx.rust} <= {self.rd(rng.p)}.len()'] + [self.ctext(i) for i in spec.get('inv', [])]
            info = dict(kind='loop', brk=False, mark=len(self.alive), depth=len(self.loopstack) + 1, endhint=spec.get('end'))
            info['inc'] = lambda: self.emit('set', idx.rust, f'{idx.rust} + 1')
            self.loopstack.append(info)
            with self.sub() as lb:
                self.emit('if', f'!({idx.rust} < {self.rd(rng.p)}.len())', [('break',)], [])
                self.scopes.append({})
                q = lv.get('type', {}).get('qualType', '')
                b = self.declare(lv['name'], et)
                k = self.fresh('k')
                self.emit('let', k, 'int', idx.rust)
                el = L(('i', rng.p, k), et)
                if q.strip().endswith('&'):
                    b.path = el.p
                elif et[0] in ('ptr', 'own'):
                    b.path = el.p
                else:
                    self.emit('letmut', b.rust, self.T.vt(et), self.rd(el.p))
                if spec.get('start'):
                    self.hint(spec['start'])
                before = len(self.cur)
                self.block([body] if body['kind'] != 'CompoundStmt' else body.get('inner', []))
                js = self.jumps(self.cur[before:])
                if not self.ends(self.cur[before:]):
                    info['inc']()
                    if spec.get('end'):
                        self.hint(spec['end'])
                self.scopes.pop()
            self.loopstack.pop()
            ens = [self.ctext(e) for e in spec.get('ens', [])]
            ex = None if info['brk'] else f'{idx.rust} == {self.rd(rng.p)}.len()'
            dec = spec.get('dec')
            self.emit('loop', dict(inv=inv, ens=ens, exit=ex, dec=self.ctext(dec) if dec else
                                   f'{self.rd(rng.p)}.len() - {idx.rust}',
                                   label=self.label('loop invariant'), line=self.line), lb.items)
            if spec.get('after'):
                self.hint(spec['after'])
            self.scopes.pop()
        self.emit('scope', sb.items)

    def class_range(self, rng):
        """range-for over a class whose begin() is <vector field>.begin()"""
        cls = rng.t[1]
        f = [g for g in self.ast.byqual.get('Caitlyn::' + cls + '::begin', []) if g.is_const] or \
            self.ast.byqual.get('Caitlyn::' + cls + '::begin', [])
        if not f:
            raise ExtractError('range-for over ' + cls)
        x = self.inline_expr_body(f[0], rng)
        if x is None or x.src is None:
            raise ExtractError('begin() of ' + cls)
        self.P.notes.append(f'{cls}::begin/end inlined as the whole {x.src}')
        p = x.src
        return L(p, self.path_type(x))

    def path_type(self, itv):
        t = itv.t
        return ('vec', t[1])

    def inline_expr_body(self, f, this):
        b = f.body
        st = [s for s in b.get('inner', []) if s]
        if len(st) != 1 or st[0]['kind'] != 'ReturnStmt':
            return None
        sv, self.this = self.this, this
        try:
            return self.expr(st[0]['inner'][0])
        finally:
            self.this = sv

    def s_SwitchStmt(self, n):
        inner = n['inner']
        v = self.rv(inner[0])
        t = self.fresh('sw')
        self.emit('let', t, self.T.vt(v.t), v.e)
        groups = []     # (labels or None for default, stmts)
        def flat(s):
            if s['kind'] == 'CaseStmt':
                groups[-1][0].append(s['inner'][0]) if groups and not groups[-1][1] else groups.append(
                    [[s['inner'][0]], []])
                flat(s['inner'][-1])
            elif s['kind'] == 'DefaultStmt':
                if groups and not groups[-1][1]:
                    groups[-1][0].append(None)
                else:
                    groups.append([[None], []])
                flat(s['inner'][-1])
            else:
                groups[-1][1].append(s)
        for s in inner[-1].get('inner', []):
            flat(s)
        # order: default last
        allvals = []
        cases = []
        for labels, stmts in groups:
            last = stmts[-1] if stmts else None
            body = list(stmts)
            ok = False
            if last is not None:
                if last['kind'] == 'BreakStmt':
                    body = body[:-1]
                    ok = True
                elif last['kind'] == 'CompoundStmt' and last.get('inner') and last['inner'][-1]['kind'] == 'BreakStmt':
                    body = body[:-1] + [dict(last, inner=last['inner'][:-1])]
                    ok = True
                elif last['kind'] in ('ReturnStmt', 'CXXThrowExpr', 'ExprWithCleanups'):
                    ok = True
                elif last['kind'] == 'CompoundStmt' and last.get('inner') and last['inner'][-1]['kind'] in (
                        'ReturnStmt', 'CXXThrowExpr', 'ExprWithCleanups'):
                    ok = True
            if not ok and (labels, stmts) != (groups[-1][0], groups[-1][1]):
                raise ExtractError('switch fallthrough')
            vals = []
            for l in labels:
                if l is None:
                    vals.append(None)
                else:
                    vals.append(self.rv(l).e)
            cases.append((vals, body))
        for vals, _ in cases:
            allvals += [x for x in vals if x is not None]
        out = []
        self.loopstack.append(dict(kind='switch', depth=len(self.loopstack) + 1)) if False else None
        for vals, body in cases:
            if None in vals:
                others = [x for x in allvals if x not in vals]
                g = ' && '.join(f'{t} != {x}' for x in others) or 'true'
            else:
                g = ' || '.join(f'{t} == {x}' for x in vals)
            self.switches.append(len(self.loopstack))
            with self.sub() as sb:
                self.block(body)
            self.switches.pop()
            out.append((g, sb.items))
        # chain
        chain = []
        for g, items in reversed(out):
            chain = [('if', g, items, chain)]
        self.cur.extend(chain)

    def s_CXXTryStmt(self, n):
        inner = n['inner']
        fr = Frame('try', self.frame)
        fr.mark, fr.tmark = len(self.alive), len(self.temps)
        fr.depth = len(self.loopstack)
        fr.flag, fr.excvar = self.fresh('exf'), self.fresh('exc')
        self.emit('letmut', fr.flag, 'bool', 'false')
        self.emit('letmut', fr.excvar, 'Exc', 'Exc::None')
        self.frame = fr
        with self.sub() as sb:
            self.block(inner[0].get('inner', []))
        self.frame = fr.parent
        fr.closed = True
        self.emit('scope', sb.items)
        # handlers
        chain = []
        conds = []
        rest = [('reraise',)]
        hs = []
        for h in inner[1:]:
            hi = [x for x in h.get('inner', []) if x.get('kind')]
            body = hi[-1]
            var = hi[0] if len(hi) > 1 and hi[0]['kind'] == 'VarDecl' else None
            if var is None:
                cond = 'true'
            else:
                q = var['type'].get('qualType', '')
                q = re.sub(r'^const\s+|\s*&$', '', q).strip()
                q2 = re.sub(r'^const\s+|\s*&$', '', var['type'].get('desugaredQualType', q)).strip()
                names = CATCH.get(q) or CATCH.get(q2) or CATCH.get(q.split('::')[-1])
                if names is None:
                    raise ExtractError('catch ' + q)
                cond = '(' + ' || '.join(f'{fr.excvar} is {x}' for x in names) + ')'
            with self.sub() as sb:
                self.scopes.append({})
                if var is not None and var.get('name'):
                    b = self.declare(var['name'], ('exc', ''))
                    b.rust = fr.excvar
                self.block(body.get('inner', []))
                self.scopes.pop()
            hs.append((cond, sb.items))
        with self.sub() as rs:
            fr2 = self.frame
            while fr2 is not None and fr2.kind == 'inline':
                fr2 = fr2.parent
            if not any(c == 'true' for c, _ in hs):
                self.do_throw(fr.excvar)
        chain = rs.items
        for c, items in reversed(hs):
            chain = [('if', c, items, chain)]
        if fr.used:
            self.emit('if', fr.flag, chain, [])

    # ------------------------------------------------------------------ expressions
    def rv(self, n):
        return self.read(self.expr(n))

    def expr(self, n):
        if n.get('_line'):
            self.line = n['_line']
        m = getattr(self, 'e_' + n['kind'], None)
        if m is None:
            raise ExtractError(f"expression {n['kind']} at line {self.line}")
        return m(n)

    def inner1(self, n):
        return self.expr([x for x in n['inner'] if x][0])

    def e_CXXBindTemporaryExpr(self, n):
        x = self.inner1(n)
        if self.tracked(x.t) and isinstance(x, V):
            t = self.fresh('tmp')
            self.emit('letmut', t, self.T.vt(x.t), x.e)
            x = L(('v', t), x.t)
            self.temps.append(x)
        return x

    def takeover(self, x):
        """a temporary that becomes the object being initialised"""
        if any(x is t for t in self.temps):
            self.temps = [t for t in self.temps if t is not x]
            return True
        return False

    e_ParenExpr = e_ExprWithCleanups = e_MaterializeTemporaryExpr = e_ConstantExpr = \
        e_SubstNonTypeTemplateParmExpr = e_CXXStdInitializerListExpr = inner1

    def e_IntegerLiteral(self, n):
        t = self.T.of(n)
        v = int(n['value'])
        return V(f'{v}{self.T.vt(t)}', t, c=v)

    def e_CharacterLiteral(self, n):
        t = self.T.of(n)
        v = int(n['value'])
        if t[0] == 'char':
            return V(f'{v & 255}u8', t, c=v & 255)
        return V(f'{v}{self.T.vt(t)}', t, c=v)

    def e_CXXBoolLiteralExpr(self, n):
        return V('true' if n['value'] else 'false', ('bool',), c=bool(n['value']))

    def e_FloatingLiteral(self, n):
        t = self.T.of(n)
        return V(f'flt_lit_{self.T.vt(t)}({sani(str(n["value"])) and float_key(n["value"])})', t)

    def e_StringLiteral(self, n):
        bs = cstr_bytes(n['value'])
        return V(f'lit({seq_lit(bs)})', ('cstr',), c=bs)

    def e_CXXNullPtrLiteralExpr(self, n):
        return V('()', ('null',))

    def e_CXXThisExpr(self, n):
        if self.this is None:
            raise ExtractError('this outside a member')
        return V('this', ('thisptr',), extra=self.this)

    def e_UnaryExprOrTypeTraitExpr(self, n):
        if n.get('name') != 'sizeof':
            raise ExtractError('%s' % n.get('name'))
        at = n.get('argType')
        if at is None:
            at = [x for x in n['inner'] if x][0]['type']
        q = at.get('desugaredQualType') or at['qualType']
        while self.f.targs and q in self.f.tparams:
            q = self.f.targs[self.f.tparams.index(q)]
        return self.size_of(q)

    def size_of(self, q):
        q = re.sub(r'\s*&+$', '', q.strip())
        t = None
        m = re.match(r'^(.*?)((?:\[\d+\])+)$', q)
        mul = 1
        if m:
            q = m.group(1).strip()
            for d in re.findall(r'\d+', m.group(2)):
                mul *= int(d)
        t = self.T.parse(q)
        k = None
        if t[0] == 'int':
            k = t[1] // 8
        elif t[0] in ('char', 'bool'):
            k = 1
        elif t[0] in ('ptr', 'cstr') or q.endswith('*'):
            k = 8
        elif t[0] == 'flt':
            k = {'float': 4, 'double': 8, 'long double': 16}[t[1]]
        if k is not None:
            return V(f'{k * mul}u64', SIZE_T, c=k * mul)
        key = size_key(t)
        self.emit('assume', f'1 <= size_of({key}) && size_of({key}) * {mul} <= {MAXLEN}')
        return V(f'((size_of({key}) * {mul}) as u64)', SIZE_T)

    def e_InitListExpr(self, n):
        t = self.T.of(n)
        inner = [x for x in n.get('inner', []) if x]
        if not inner:
            return V(self.default_value(t), t)
        if t[0] == 'vec':
            vs = [self.rv(x) for x in inner]
            return V('seq![' + ', '.join(v.e for v in vs) + ']', t)
        if t[0] in ('int', 'bool', 'char', 'flt', 'cstr', 'enum') and len(inner) == 1:
            return self.rv(inner[0])
        if len(inner) == 1:
            x = self.rv(inner[0])
            if x.t == t:
                return x
        if t[0] in ('unk',) or True:
            vs = [self.rv(x) for x in inner]
            return V('seq![' + ', '.join(v.e for v in vs) + ']', ('ilist',), extra=vs)

    def e_CXXDefaultArgExpr(self, n):
        inner = [x for x in n.get('inner', []) if x]
        if inner:
            return self.expr(inner[0])
        return V('__default', ('defaultarg',))

    def e_CXXDefaultInitExpr(self, n):
        raise ExtractError('default init expr')

    def e_ImplicitValueInitExpr(self, n):
        t = self.T.of(n)
        return V(self.default_value(t), t)

    def e_CXXScalarValueInitExpr(self, n):
        t = self.T.of(n)
        return V(self.default_value(t), t)

    def e_ArraySubscriptExpr(self, n):
        a = self.expr(n['inner'][0])
        i = self.rv(n['inner'][1])
        a = self.read(a)
        if a.t[0] == 'cstr':
            if a.c is not None and i.c is not None:
                bs = a.c + [0]
                if i.c < len(bs):
                    return V(f'{bs[i.c]}u8', ('char',), c=bs[i.c])
            self.oblig(f'0 <= {a.e}.off + {i.e} <= {a.e}.buf.len()' + (f' && !({a.e}.raw && {a.e}.off + {i.e} == {a.e}.buf.len())' if self.lib.T_single else ''), 'subscript of a C string stays inside it')
            return V(f'cstr_at({a.e}, {i.e} as int)', ('char',))
        if a.t[0] == 'argv':
            self.oblig(f'0 <= {i.e} < {a.e}.len()', 'subscript of an array of C strings stays inside it')
            return V(f'{a.e}[{i.e} as int]', ('cstr',))
        raise ExtractError(f'subscript of {a.t}')

    def e_DeclRefExpr(self, n):
        rd = n['referencedDecl']
        k = rd['kind']
        name = rd.get('name')
        if k == 'EnumConstantDecl':
            ec = self.ast.enumconst.get(rd['id'])
            if ec is None:
                return V('0i32', ('int', 32, True), c=0) if self.T.of(n)[0] != 'enum' else self.bad('enum const')
            t = ('enum', ec[0])
            return V(f'{ec[1]}{self.T.vt(t)}', t, c=ec[1])
        if k in ('VarDecl', 'ParmVarDecl'):
            b = (self.lookup('#' + rd['id']) if k == 'ParmVarDecl' else None) or self.lookup(name)
            if b is not None:
                if name in self.lib.statics and b.rust == name:
                    rawmem.starts(self, name)
                if b.path is not None:
                    return L(b.path, b.t, src=b.src, extra=b.extra)
                if b.const_val is not None:
                    return V(b.const_val, b.t, extra=b.extra)
                if b.t[0] == 'lambda' or (b.extra is not None and b.t[0] == 'fnptr'):
                    return V(b.rust, b.t, extra=b.extra)
                return L(('v', b.rust), b.t, src=b.src, extra=b.extra)
            return self.globalvar(rd, n)
        if k in ('FunctionDecl', 'CXXMethodDecl'):
            return V(name, ('fnref',), extra=(rd, n))
        raise ExtractError('reference to ' + k)

    def trait_value(self, text):
        """std::is_signed<T>::value and the like, from the template arguments of the current instantiation"""
        m = re.match(r'^(?:::)?(?:std::)?(is_\w+)\s*<\s*(\w[\w ]*)\s*>\s*::\s*value$', text.strip())
        if not m:
            return None
        f = self.ast.funcs[self.inline_stack[-1]] if self.inline_stack else self.f
        ty = m.group(2).strip()
        al = dict(zip(getattr(f, 'tparams', []), f.targs))
        t = self.T.parse(al.get(ty, ty))
        if t[0] not in ('int', 'char', 'bool'):
            return None
        signed = t[0] == 'char' or t[0] == 'int' and t[2]
        return {'is_signed': signed, 'is_unsigned': not signed, 'is_integral': True, 'is_arithmetic': True}.get(m.group(1))

    def bad(self, w):
        raise ExtractError(w)

    def globalvar(self, rd, n):
        vd = self.ast.vars.get(rd['id']) or self.ast.byid.get(rd['id'])
        name = rd.get('name')
        if name in ('cout', 'cerr', 'clog', 'cin'):
            b = self.lookup('io')
            if b is None:
                raise ExtractError('console stream used in a function without an io contract')
            return L(('f', ('v', b.rust), name, 'IO'), ('ostream',) if name != 'cin' else ('istream',))
        if name == 'npos':
            return V('0xffff_ffff_ffff_ffffu64', ('int', 64, False), c=2**64 - 1)
        if name in ('nothrow',):
            return V('()', ('null',))
        if vd is not None:
            q = vd.get('type', {}).get('qualType', '')
            if vd.get('constexpr') or q.startswith('const') or q.rstrip().endswith('const'):
                ini = [x for x in vd.get('inner', []) if x.get('kind') and not x['kind'].endswith('Attr')]
                if ini:
                    with self.sub() as sb:
                        v = self.rv(ini[0])
                    if all(i[0] == 'assume' or i[0] == 'assert' for i in sb.items):
                        return v
        if name in ('beg', 'end', 'cur', 'in', 'out', 'app', 'trunc', 'binary', 'ate'):
            return V(f'ios_{name}()', ('ios', name), extra=('ios', [name]))
        if name == 'value':
            c = self.trait_value(self.ast.text(n))
            if c is not None:
                return V('true' if c else 'false', ('bool',), c=c)
        if name and name.startswith('memory_order'):
            return V('()', ('memorder',))
        g = self.lib.globalvar(self, rd, n)
        if g is not None:
            return g
        raise ExtractError(f'global variable {name}')

    # ---- casts
    def e_ImplicitCastExpr(self, n):
        return self.cast(n)
    e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = e_CStyleCastExpr = e_CXXConstCastExpr = e_ImplicitCastExpr

    def cast(self, n):
        ck = n.get('castKind')
        x = [y for y in n['inner'] if y][0]
        if ck in ('LValueToRValue',):
            v = self.expr(x)
            return v if v.t[0] == 'own' else self.read(v)
        if ck in ('NoOp', 'ConstructorConversion', 'FunctionToPointerDecay', 'ArrayToPointerDecay', 'UserDefinedConversion',
                  'DerivedToBase', 'UncheckedDerivedToBase', 'BuiltinFnToFnPtr'):
            r = self.expr(x)
            if ck.endswith('DerivedToBase') and isinstance(r, L) and r.t == ('fstream',) and self.T.unref(self.T.of(n)) == ('ostream',):
                return L(('sink', r.p), ('ostream',))
            return r
        if ck == 'ToVoid':
            self.expr(x)
            return V('()', ('void',))
        if ck in ('IntegralCast',):
            return self.conv(self.rv(x), self.T.of(n))
        if ck == 'IntegralToBoolean':
            v = self.rv(x)
            if v.c is not None:
                return V('true' if v.c else 'false', ('bool',), c=bool(v.c))
            return V(f'({v.e} != 0)', ('bool',))
        if ck == 'NullToPointer':
            t = self.T.of(n)
            if self.T.addr and t[0] == 'ptr':
                return V('0int', t)
            if t[0] == 'cstr':
                return V('cstr_null()', t, c='null')
            if t[0] == 'single':
                return V('false', t)
            return V('()', ('null',)) if t[0] != 'own' else V('Own::Null', t)
        if ck in ('FloatingCast', 'IntegralToFloating', 'FloatingToIntegral'):
            v = self.rv(x)
            t = self.T.of(n)
            if self.T.vt(v.t) == self.T.vt(t):
                return v
            return V(f'cast_{self.T.vt(v.t)}_{self.T.vt(t)}({v.e})', t)
        if ck == 'PointerToBoolean':
            v = self.rv(x)
            r = self.lib.ptr_to_bool(self, v)
            if r is not None:
                return r
        raise ExtractError(f'cast {ck} at line {self.line}')

    def irange(self, t):
        bits, s = t[1], t[2]
        return (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if s else (0, (1 << bits) - 1)

    def ity(self, t):
        if t[0] == 'enum':
            return ('int',) + self.ast.enums[t[1]]
        return t

    def conv(self, v, t):
        s, d = self.ity(v.t), self.ity(t)
        if s == d:
            return V(v.e, t, c=v.c)
        if v.c is not None and not isinstance(v.c, list):
            c = int(v.c)
            if s[0] == 'char' and c >= 128 and d[0] != 'char':
                c -= 256
            if d[0] == 'char':
                c &= 255
                return V(f'{c}u8', t, c=c)
            if d[0] == 'bool':
                return V('true' if c else 'false', t, c=bool(c))
            lo, hi = self.irange(d)
            c = (c - lo) % (1 << d[1]) + lo
            return V(f'({c}{self.T.vt(d)})' if c < 0 else f'{c}{self.T.vt(d)}', t, c=c)
        if s[0] == 'bool':
            if d[0] == 'char' or d[0] == 'int':
                return V(f'(if {v.e} {{ 1{self.T.vt(d)} }} else {{ 0{self.T.vt(d)} }})', t)
        if s[0] == 'char':
            if d == ('int', 8, False):
                return V(v.e, t)
            if d[0] == 'int':
                if d[2]:
                    return V(f'(char_to_int({v.e}) as {self.T.vt(d)})', t)
                return V(f'{self.T.vt(d)}_wrap(char_to_int({v.e}))', t)
        if d[0] == 'char':
            if s == ('int', 8, False):
                return V(v.e, t)
            if s[0] == 'int':
                return V(f'u8_wrap({v.e} as int)', t)
        if s[0] == 'int' and d[0] == 'int':
            slo, shi = self.irange(s)
            dlo, dhi = self.irange(d)
            if dlo <= slo and shi <= dhi:
                return V(f'({v.e} as {self.T.vt(d)})', t)
            return V(f'{self.T.vt(d)}_wrap({v.e} as int)', t)
        raise ExtractError(f'conversion {s} -> {d}')

    # ---- operators
    def e_UnaryOperator(self, n):
        op = n['opcode']
        x = n['inner'][0]
        if op == '!':
            v = self.rv(x)
            if v.c is not None:
                return V('false' if v.c else 'true', ('bool',), c=not v.c)
            return V(f'!({v.e})', ('bool',))
        if op == '*':
            v = self.expr(x)
            if isinstance(v, V) and v.t[0] == 'thisptr':
                return v.extra
            v2 = owned.whole(self, v)
            if v2.t[0] == 'cstr':
                self.oblig(f'0 <= {v2.e}.off <= {v2.e}.buf.len()', 'read through a char pointer stays inside the text')
                return V(f'cstr_at({v2.e}, 0)', ('char',))
            r = self.lib.deref(self, v, n)
            if r is not None:
                return r
            raise ExtractError(f'dereference of {v2.t}')
        if op == '&':
            v = self.expr(x)
            return V('&', ('addr',), extra=v)
        if op in ('++', '--'):
            l = self.expr(x)
            if not isinstance(l, L):
                raise ExtractError('++ on rvalue')
            o = self.read(l)
            t = self.fresh('o')
            self.emit('let', t, self.T.vt(l.t), o.e)
            if l.t[0] == 'cstr':
                self.step_cstr(l, t, '1' if op == '++' else '-1')
            else:
                one = V('1', l.t, c=1)
                nv = self.arith(op[0], V(t, l.t), V(f'1{self.T.vt(l.t)}', l.t, c=1), l.t)
                self.assign(l, nv.e)
            return V(t, l.t) if n.get('isPostfix') else l
        if op == '-':
            v = self.rv(x)
            if v.t[0] == 'flt':
                return V(f'neg_{self.T.vt(v.t)}({v.e})', v.t)
            t = self.T.of(n)
            if v.c is not None:
                return self.conv(V('', ('int', 64, True), c=-v.c), t)
            return self.arith('-', V(f'0{self.T.vt(t)}', t, c=0), v, t)
        if op == '+':
            return self.rv(x)
        if op == '~':
            v = self.rv(x)
            if v.t[0] == 'int' and not v.t[2]:
                return V(f'(!{v.e})', v.t)
        raise ExtractError(f'unary {op}')

    def step_cstr(self, l, old, amount):
        self.oblig(f'0 <= {old}.off + ({amount}) <= {old}.buf.len() + 1', 'pointer arithmetic stays inside the text')
        self.assign(l, f'CStr {{ off: {old}.off + ({amount}), ..{old} }}')

    def arith(self, op, a, b, t):
        if t[0] == 'flt':
            f = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div'}[op]
            return V(f'{f}_{self.T.vt(t)}({a.e}, {b.e})', t)
        t0 = self.ity(t)
        if t0[0] != 'int':
            raise ExtractError(f'arithmetic on {t}')
        ty = self.T.vt(t)
        bits, signed = t0[1], t0[2]
        lo, hi = self.irange(t0)
        if op in ('+', '-', '*'):
            if a.c is not None and b.c is not None:
                c = {'+': a.c + b.c, '-': a.c - b.c, '*': a.c * b.c}[op]
                return self.conv(V('', ('int', 128, True), c=c), t)
            e = f'({a.e} {op} {b.e})'
            if signed:
                self.oblig(f'{lo} <= {e} <= {hi}', f'no signed overflow in {op}')
                return V(f'({e} as {ty})', t)
            return V(f'{ty}_wrap({e})', t)
        if op in ('/', '%'):
            if b.c is None or b.c == 0:
                self.oblig(f'{b.e} != 0', 'no division by zero')
            if signed:
                if b.c is None or b.c == -1:
                    self.oblig(f'!({a.e} == {lo} && {b.e} == -1)', 'no signed overflow in division')
                f = 'tdiv' if op == '/' else 'tmod'
                return V(f'({f}({a.e} as int, {b.e} as int) as {ty})', t)
            return V(f'(({a.e} {op} {b.e}) as {ty})', t)
        if op in ('&', '|', '^'):
            if a.c is not None and b.c is not None and a.c >= 0 and b.c >= 0:
                c = {'&': a.c & b.c, '|': a.c | b.c, '^': a.c ^ b.c}[op]
                return self.conv(V('', ('int', 128, True), c=c), t)
            if signed:
                self.oblig(' && '.join(f'{v.e} >= 0' for v in (a, b) if v.c is None or v.c < 0) or 'true',
                           'bit operation on non-negative operands')
            k, v = (a, b) if a.c is not None else (b, a)
            if op == '&' and k.c is not None and k.c >= 0:
                # x & C as the sum of the bit runs of C (exact for x >= 0)
                runs, c, lo = [], k.c, 0
                while c >> lo:
                    if not (c >> lo) & 1:
                        lo += 1
                        continue
                    hi = lo
                    while (c >> hi) & 1:
                        hi += 1
                    d = f'({v.e} as int)' if lo == 0 else f'({v.e} as int / {1 << lo:#x})'
                    runs.append(f'({d} % {1 << (hi - lo):#x})' + (f' * {1 << lo:#x}' if lo else ''))
                    lo = hi
                return V(f'(({" + ".join(runs) or "0int"}) as {ty})', t)
            if op == '|' and bits == 32:
                return V(f'(bor32({a.e} as u32, {b.e} as u32) as {ty})', t)
            u = INTTYPES[(bits, False)]
            return V(f'((({a.e} as {u}) {op} ({b.e} as {u})) as {ty})', t)
        if op in ('<<', '>>'):
            if b.c is not None:
                if not (0 <= b.c < bits):
                    self.oblig('false', 'shift amount in range')
                if signed:
                    u = INTTYPES[(bits, False)]
                    if op == '<<':
                        self.oblig(f'0 <= {a.e} && {a.e} * {1 << b.c} <= {hi}', 'no overflow in shift')
                        return V(f'(({a.e} * {1 << b.c}) as {ty})', t)
                    self.oblig(f'0 <= {a.e}', 'shift of a non-negative value')
                    return V(f'(({a.e} as int / {1 << b.c}) as {ty})', t)
                if op == '<<':
                    return V(f'{ty}_wrap({a.e} * {1 << b.c})', t)
                return V(f'(({a.e} as int / {1 << b.c}) as {ty})', t)
            raise ExtractError('shift by a variable')
        raise ExtractError('arith ' + op)

    def compare(self, op, a, b):
        if a.t[0] == 'char':
            a = self.conv(a, ('int', 32, True))
        if b.t[0] == 'char':
            b = self.conv(b, ('int', 32, True))
        if a.c is not None and b.c is not None and not isinstance(a.c, list):
            r = {'==': a.c == b.c, '!=': a.c != b.c, '<': a.c < b.c, '>': a.c > b.c, '<=': a.c <= b.c,
                 '>=': a.c >= b.c}[op]
            return V('true' if r else 'false', ('bool',), c=r)
        if a.t[0] == 'flt':
            f = {'==': 'eq', '!=': 'ne', '<': 'lt', '>': 'gt', '<=': 'le', '>=': 'ge'}[op]
            return V(f'{f}_{self.T.vt(a.t)}({a.e}, {b.e})', ('bool',))
        return V(f'({a.e} {op} {b.e})', ('bool',))

    def e_BinaryOperator(self, n):
        op = n['opcode']
        ln, rn = n['inner']
        if op == ',':
            self.expr(ln)
            return self.expr(rn)
        if op in ('&&', '||'):
            a = self.rv(ln)
            if a.c is not None:
                if bool(a.c) == (op == '||'):
                    return V('true' if op == '||' else 'false', ('bool',), c=(op == '||'))
                return self.rv(rn)
            with self.sub() as sb:
                b = self.rv(rn)
            g = a.e if op == '&&' else f'!({a.e})'
            if self.pure(sb.items):
                self.merge_guarded(sb.items, g)
                return V(f'({a.e} {op} {b.e})', ('bool',))
            t = self.fresh('sc')
            self.emit('letmut', t, 'bool', a.e)
            self.emit('if', t if op == '&&' else f'!{t}', sb.items + [('set', t, b.e)], [])
            return V(t, ('bool',))
        if op == '=':
            r = self.rv(rn)
            w = rawmem.put(self, ln, r)
            if w is not None:
                return w
            mark = len(self.cur)
            l = self.expr(ln)
            r = self.keep(r, mark)
            if isinstance(l, V) and self.lib.assign_special(self, l, r):
                return l
            if owned.has_own(l.t):
                return owned.assign(self, l, r, ln)
            if l.t[0] == 'int' and r.t[0] == 'int' and l.t != r.t:
                r = self.conv(r, l.t)
            self.assign(l, r.e)
            return l
        # comparisons involving pointers/null
        a, b = self.expr(ln), None
        mark = len(self.cur)
        if op in ('==', '!='):
            b = self.expr(rn)
            x = self.lib.ptr_compare(self, op, a, b)
            if x is not None:
                return x
        a = self.read(a)
        b = self.read(b) if b is not None else self.rv(rn)
        a = self.keep(a, mark)
        if op in ('==', '!=') and a.t[0] == b.t[0] == 'cstr' and 'null' in (a.c, b.c):
            return V(f'({(a if b.c == "null" else b).e}.off {op} -1)', ('bool',))
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return self.compare(op, a, b)
        t = self.T.of(n)
        if a.t[0] == 'cstr' and op in ('+', '-'):
            s = '' if op == '+' else '-'
            self.oblig(f'0 <= {a.e}.off + ({s}{b.e}) <= {a.e}.buf.len() + 1', 'pointer arithmetic stays inside the text')
            return V(f'CStr {{ off: {a.e}.off + ({s}({b.e} as int)), ..{a.e} }}', a.t)
        return self.arith(op, a, b, t)

    def e_CompoundAssignOperator(self, n):
        op = n['opcode'][:-1]
        ln, rn = n['inner']
        r = self.rv(rn)
        mark = len(self.cur)
        l = self.expr(ln)
        r = self.keep(r, mark)
        o = self.read(l)
        if l.t[0] == 'cstr':
            t = self.fresh('o')
            self.emit('let', t, 'CStr', o.e)
            self.step_cstr(l, t, r.e if op == '+' else f'-({r.e})')
            return l
        ct = n.get('computeResultType', {})
        ct = self.T.parse(ct.get('desugaredQualType') or ct.get('qualType') or n['type']['qualType'])
        a = o if op in ('<<', '>>') and False else (self.conv(o, ct) if ct[0] == 'int' else o)
        v = self.arith(op, a, r, ct)
        v = self.conv(v, l.t) if ct[0] == 'int' else v
        self.assign(l, v.e)
        return l

    def e_ConditionalOperator(self, n):
        c = self.rv(n['inner'][0])
        if c.c is not None:
            return self.expr(n['inner'][1 if c.c else 2])
        with self.sub() as sa:
            a = self.expr(n['inner'][1])
        with self.sub() as sb:
            b = self.expr(n['inner'][2])
        a, b = self.read(a), self.read(b)
        t = a.t
        if self.pure(sa.items) and self.pure(sb.items):
            self.merge_guarded(sa.items, c.e)
            self.merge_guarded(sb.items, f'!({c.e})')
            ex = None
            if t[0] == 'cstr' and isinstance(a.c, list) and isinstance(b.c, list):
                ex = ('condtext', c.e, a.c, b.c)
            return V(f'(if {c.e} {{ {a.e} }} else {{ {b.e} }})', t, extra=ex)
        v = self.fresh('c')
        self.emit('letmut', v, self.T.vt(t), self.uninit(t))
        self.emit('if', c.e, sa.items + [('set', v, a.e)], sb.items + [('set', v, b.e)])
        return V(v, t)

    def e_CXXThrowExpr(self, n):
        inner = [x for x in n.get('inner', []) if x]
        if not inner:
            raise ExtractError('rethrow')
        x = inner[0]
        q = x['type'].get('desugaredQualType') or x['type']['qualType']
        q = q.replace('Caitlyn::', '')
        kind = EXC.get(q) or EXC.get(x['type']['qualType']) or EXC.get(q.split('::')[-1]) or \
            EXC.get('std::' + q.split('::')[-1]) or EXC.get('std::ios_base::' + q.split('::')[-1].split('[')[0])
        if kind is None and 'failure' in q:
            kind = 'IosFailure'
        if kind is None:
            raise ExtractError('throw of ' + q)
        # the message argument may itself contain calls that matter (e.g. message.str()); it is dropped
        self.do_throw(f'Exc::{kind}')
        return V('()', ('void',))

    # ---- member access
    def e_MemberExpr(self, n, raw=False):
        mid = n.get('referencedMemberDecl')
        b = self.expr(n['inner'][0])
        if isinstance(b, V) and b.t[0] == 'thisptr':
            b = b.extra
        if b.t[0] == 'own':
            b = self.lib.deref(self, b, n)
        if b.t[0] == 'single':
            b = rawmem.object_of(self, self.read(b))
        name = n['name']
        t = b.t
        if t[0] == 'pair':
            ft = t[1] if name == 'first' else t[2]
            if isinstance(b, L):
                return L(('f', b.p, name, 'Pair'), ft)
            return V(f'{b.e}.{name}', ft)
        r = self.lib.member(self, b, name, n)
        if r is not None:
            return r
        if t[0] == 'cls':
            return self.field(b, t[1], name, raw)
        raise ExtractError(f'member {name} of {t}')

    # ---- construction
    def e_CXXNewExpr(self, n):
        inner = [x for x in n.get('inner', []) if x]
        if not n.get('isPlacement') or len(inner) != 2:
            r = self.lib.new_expr(self, n, inner)
            if r is None:
                raise ExtractError('new')
            return r
        a = inner[1]
        while a['kind'] in ('ImplicitCastExpr', 'ParenExpr', 'CXXStaticCastExpr', 'CStyleCastExpr', 'CXXReinterpretCastExpr'):
            a = [y for y in a['inner'] if y][0]
        tgt = None
        if a['kind'] == 'UnaryOperator' and a.get('opcode') == '&':
            m = [y for y in a['inner'] if y][0]
            if m['kind'] == 'MemberExpr':
                tgt = self.e_MemberExpr(m, raw=True)
        if not isinstance(tgt, L) or tgt.p[0] != 'u':
            raise ExtractError('placement new into something other than a union member')
        u = self.rd(tgt.p[1])
        i = inner[0]
        v = self.init_value(i, tgt.t)
        triv = [f'{u} is {c}' for c, ft, _ in self.T.used[tgt.p[3] and next(k for k in self.T.used if self.T.sname(k) == tgt.p[3])] if ft[0] in ('int', 'char', 'bool', 'enum', 'flt', 'null', 'cstr')]
        self.oblig(' || '.join([f'{u} is Nothing'] + triv), 'nothing that needs destroying is alive in the union when an object is constructed in it')
        self.assign(tgt, v)
        return V('()', ('addr',), extra=tgt)

    def e_CXXDeleteExpr(self, n):
        r = self.lib.delete_expr(self, n)
        if r is None:
            raise ExtractError('delete')
        return r

    def destroy(self, m):
        """explicit destructor call on the object named by expression `m`"""
        tgt = self.e_MemberExpr(m) if m['kind'] == 'MemberExpr' else self.expr(m)
        if not isinstance(tgt, L) or tgt.p[0] != 'u':
            raise ExtractError('explicit destructor call of something other than a union member')
        if tgt.t[0] == 'vec' and owned.has_own(tgt.t):
            owned.dropped(self, self.lib.bind(self, self.rd(tgt.p), self.T.vt(tgt.t)), tgt.t[1])
        r, e = self.upd(tgt.p[1], f'{tgt.p[3]}::Nothing')
        self.emit('set', r, e)
        return V('()', ('void',))

    def e_CXXTemporaryObjectExpr(self, n):
        return self.e_CXXConstructExpr(n)

    def e_CXXConstructExpr(self, n):
        t = self.T.of(n)
        args = [x for x in n.get('inner', []) if x]
        ctor = n.get('ctorType', {}).get('qualType', '')
        k = t[0]
        if k == 'cls' and self.T.is_union(t[1]) and not args:
            return V(self.default_value(t), t)
        if k == 'cls' and t[1] not in self.T.opaque:
            r = self.lib.construct(self, t, args, ctor, n)
            if r is not None:
                return r
            c = self.find_ctor(t[1], ctor)
            if c is None:
                raise ExtractError(f'constructor {ctor} of {t[1]}')
            is_copy = len(args) == 1 and self.is_copymove(c, t[1])
            if is_copy:
                x = self.expr(args[0])
                if n.get('elidable') and self.takeover(x):
                    return V(self.read(x).e, t)
                if n.get('elidable') and self.tracked(t) and isinstance(x, L) and not (self.nrvo is not None and x.p == self.nrvo.p):
                    raise ExtractError('elided copy of an object that is not a temporary')
                if n.get('elidable') or c.node.get('isImplicit') or c.node.get('explicitlyDefaulted') or c.body is None and self.P.contract(c) is None:
                    if not n.get('elidable') and '&&' in ctor:
                        r = self.read(x)
                        tmp = self.fresh('mv')
                        self.emit('let', tmp, self.T.vt(t), r.e)
                        self.moved_from(x)
                        return V(tmp, t)
                    if not n.get('elidable') and self.throwing_copy(t[1]):
                        return self.memberwise(x, t)
                    return V(self.read(x).e, t)
                return self.call_user(c, None, [x])
            if c.node.get('isImplicit') or (c.node.get('explicitlyDefaulted') and not args):
                if not args:
                    return V(self.default_value(t), t)
            return self.call_user(c, None, args)
        return self.lib.construct_std(self, t, args, ctor, n)

    def copy_ctor(self, cls):
        for x in self.ast.classes[cls].get('inner', []):
            if x.get('kind') == 'CXXConstructorDecl' and x['id'] in self.ast.funcs:
                c = self.ast.funcs[x['id']]
                if self.is_copymove(c, cls) and '&&' not in c.type:
                    return c
        return None

    def throwing_copy(self, cls):
        """the copy constructor of the class, or of a member of it, is under a contract that lets it throw"""
        if cls in self.T.opaque or self.T.is_union(cls):
            return False
        c = self.copy_ctor(cls)
        if c is not None and self.P.contract(c) is not None:
            return self.P.contract(c).throws
        if c is not None and not c.node.get('isImplicit') and not c.node.get('explicitlyDefaulted'):
            return False
        self.T.use(cls)
        return any(t[0] == 'cls' and self.throwing_copy(t[1]) for _, t, _ in self.T.used[cls])

    def memberwise(self, x, t):
        c = self.copy_ctor(t[1])
        if c is not None and self.P.contract(c) is not None:
            return self.call_user(c, None, [x])
        self.T.use(t[1])
        vals = []
        for canon, ft, fn in self.T.used[t[1]]:
            m = self.field(x, t[1], fn['name'])
            v = self.memberwise(m, ft) if ft[0] == 'cls' and self.throwing_copy(ft[1]) else self.read(m)
            vals.append(f'{canon}: {v.e}')
        return V(f'{self.T.vt(t)} {{ {", ".join(vals) or "__e: ()"} }}', t)

    def is_copymove(self, c, cls):
        ps = c.params
        if len(ps) < 1:
            return False
        t = self.T.of(ps[0])
        return t[0] in ('ref', 'rref') and t[1] == ('cls', cls)

    def moved_from(self, x):
        """state of a moved-from lvalue"""
        if isinstance(x, L) and x.p[0] != 'c':
            root = x.p
            while root[0] in ('f', 'i', 'u'):
                root = root[1]
            if root[0] == 'c':
                return
            t = x.t
            if t[0] in ('vec', 'map'):
                self.assign(x, self.default_value(t))
            elif t[0] in ('str', 'oss'):
                v = self.fresh('any')
                self.emit('any', v, self.T.vt(t))
                self.assign(x, v)
            elif t[0] == 'cls' and t[1] not in self.T.opaque:
                c = None
                for g in self.ast.byqual.get('Caitlyn::' + t[1] + '::' + t[1].split('::')[-1], []):
                    if self.is_copymove(g, t[1]) and '&&' in g.type:
                        c = g
                if c is None or c.node.get('isImplicit') or c.node.get('explicitlyDefaulted'):
                    self.T.use(t[1])
                    for canon, ft, fn in self.T.used[t[1]]:
                        self.moved_from(self.field(x, t[1], fn['name']))

    # ---- calls
    def e_CXXMemberCallExpr(self, n):
        callee, args = n['inner'][0], n['inner'][1:]
        while callee['kind'] in ('ParenExpr', 'ImplicitCastExpr'):
            callee = callee['inner'][0]
        if callee['kind'] != 'MemberExpr':
            raise ExtractError('indirect member call')
        name = callee['name']
        if name.startswith('~'):
            return self.destroy(callee['inner'][0])
        obj = self.expr(callee['inner'][0])
        if isinstance(obj, V) and obj.t[0] == 'thisptr':
            obj = obj.extra
        if obj.t[0] == 'own':
            obj = self.lib.deref(self, obj, n)
        if obj.t[0] == 'single':
            obj = rawmem.object_of(self, self.read(obj))
        mid = callee.get('referencedMemberDecl')
        r = self.lib.member_call(self, obj, name, args, n, callee)
        if r is not None:
            return r
        f = self.ast.funcs.get(mid)
        if f is not None:
            return self.call_user(f, obj, args)
        return self.lib.std_method(self, obj, name, args, n)

    def has_call(self, n):
        return bool(n) and (n.get('kind') in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr', 'CXXConstructExpr', 'CXXTemporaryObjectExpr') or any(self.has_call(y) for y in n.get('inner', []) if y))

    def e_CXXOperatorCallExpr(self, n):
        callee, args = n['inner'][0], n['inner'][1:]
        while callee['kind'] in ('ParenExpr', 'ImplicitCastExpr'):
            callee = callee['inner'][0]
        rd = callee.get('referencedDecl', {})
        f = self.ast.funcs.get(rd.get('id'))
        if f is not None:
            if f.cls is not None and not f.is_static:
                right = None
                if f.name in ASSIGNS and self.has_call(args[0]) and self.has_call(args[1]):     # the right operand of an assignment comes first
                    right = self.expr(args[1])
                    args = [args[0], right]
                mark = len(self.cur)
                obj = self.expr(args[0])
                if right is not None:
                    args[1] = self.keep(right, mark)
                if f.name == 'operator=' and (f.node.get('isImplicit') or f.node.get('explicitlyDefaulted')) and isinstance(obj, L):
                    x = args[1] if right is not None else self.expr(args[1])
                    tmp = self.fresh('cp')
                    self.emit('let', tmp, self.T.vt(obj.t), self.read(x).e)
                    if '&&' in f.type:
                        self.moved_from(x)
                    self.assign(obj, tmp)
                    return obj
                r = self.lib.member_call(self, obj, f.name, args[1:], n, callee)
                if r is not None:
                    return r
                return self.call_user(f, obj, args[1:])
            return self.call_user(f, None, args)
        return self.lib.std_operator(self, rd.get('name'), args, n)

    def e_CallExpr(self, n):
        callee, args = n['inner'][0], n['inner'][1:]
        while callee['kind'] in ('ParenExpr', 'ImplicitCastExpr'):
            callee = callee['inner'][0]
        if callee['kind'] == 'DeclRefExpr':
            rd = callee['referencedDecl']
            if rd['kind'] in ('ParmVarDecl', 'VarDecl'):
                fv = self.rv(callee)
                return self.lib.call_value(self, fv, args, n)
            f = self.ast.funcs.get(rd['id'])
            if f is not None:
                r = self.lib.user_call(self, f, args, n)
                if r is not None:
                    return r
                return self.call_user(f, None, args)
            return self.lib.std_call(self, rd.get('name'), args, n, rd)
        if callee['kind'] == 'MemberExpr':
            # call through a stored function pointer or a static member
            f = self.ast.funcs.get(callee.get('referencedMemberDecl'))
            if f is not None and f.node.get('storageClass') == 'static':
                return self.call_user(f, None, args)
            fv = self.rv(callee)
            return self.lib.call_value(self, fv, args, n)
        if callee['kind'] == 'CXXPseudoDestructorExpr':
            return self.destroy([y for y in callee['inner'] if y][0])
        raise ExtractError('call through ' + callee['kind'])

    def arg_values(self, f, args):
        out = []
        for i, p in enumerate(f.params):
            t = self.ptype_of(f, i, p)
            if i < len(args):
                a = args[i]
                if isinstance(a, (V, L)):
                    x = a
                elif a.get('kind') == 'CXXDefaultArgExpr' and not a.get('inner'):
                    d = [y for y in p.get('inner', []) if y]
                    if not d:
                        raise ExtractError('default argument')
                    x = self.expr(d[0])
                else:
                    mark = len(self.cur)
                    x = self.expr(a)
                    out = [(p0, t0, self.keep(x0, mark)) for p0, t0, x0 in out]
            else:
                d = [y for y in p.get('inner', []) if y]
                if not d:
                    raise ExtractError('missing argument')
                x = self.expr(d[0])
            out.append((p, t, x))
        return out

    def call_user(self, f, obj, args):
        c = self.P.contract(f)
        av = self.arg_values(f, args)
        if c is not None and c.byref:
            self.P.want(f)      # returns a reference into an object: proved once, used through its body
            c = None
        if c is None:
            return self.inline_call(f, obj, av)
        self.P.want(f)
        names, exprs = [], []
        muts = []
        for g, gt in c.globals:
            b = self.lookup(g)
            names.append(g)
            if g == 'inner':        # only the operands this function was given itself can lie inside an object
                own = [x for p, t, x in av if isinstance(x, L) and x.p in self.inner_places()]
                exprs.append(b.rust if b is not None and own else '0int')
                muts.append((g, V('0int', ('intghost',))))
                continue
            if b is None:
                raise ExtractError(f'{f.qual} needs {g}')
            exprs.append(b.rust)
            muts.append((g, L(('v', b.rust), b.t)))
        is_ctor = f.kind == 'CXXConstructorDecl'
        if f.cls is not None and not f.is_static and not is_ctor:
            names.append('this')
            exprs.append(self.read(obj).e)
            if not f.is_const:
                muts.append(('this', obj))
        for i, (p, t, x) in enumerate(av):
            pn = p.get('name') or f'__p{i}'
            if c.params and i < len(c.params):
                pn = c.params[i]
            pn = self.pname(pn)
            names.append(pn)
            u = self.T.unref(t)
            v = self.read(x)
            if u == ('fnp', ('void',)) and v.t[0] in ('fnref', 'lambda'):
                v = self.named_fn(v)
            e = v.e
            if t[0] not in ('ref', 'rref') and self.tracked(u) and isinstance(x, L) and not self.takeover(x):
                raise ExtractError('object with a destructor passed by value')
            if v.t[0] == 'int' and u[0] == 'int' and v.t != u:
                e = self.conv(v, u).e
            exprs.append(e)
            if t[0] == 'rref' and t[1][0] != 'unk' or t[0] == 'ref' and not t[2]:
                muts.append((pn, x))
        rt = ('cls', strip_ns(f.cls['_qual'])) if is_ctor else self.ret_type(f)
        if c.rett:
            rt = c.rett
        urt = self.T.unref(rt)
        short = f.name
        k = self.callcount.get(short, 0)
        self.callcount[short] = k + 1
        if c.pure is not None:
            m = {n: (e if re.match(r'^[\w.]+$', e) else f'({e})') for n, e in zip(names, exprs)}
            for i, rq in enumerate(c.requires):
                self.oblig(subst(rq, m), f'precondition {i + 1} of {strip_ns(f.qual)}')
            e = subst(c.pure, m)
            for q in c.ensures:
                self.emit('assume', subst(q, dict(m, r=f'({e})')))
            return V(f'({e})', urt)
        # an object passed by reference next to a mutable reference to it
        var = None
        for nme, mx in list(muts):
            if isinstance(mx, L):
                for (p, t, x), pn2 in list(zip(av, names[-len(av):] if av else [])):
                    if isinstance(x, L) and x is not mx and x.p == mx.p and pn2 != nme and t[0] in ('ref', 'rref'):
                        if var is None and (nme, pn2) in c.alias:       # the contract has a variant for that
                            var = (nme, pn2)
                            k = names.index(pn2)
                            del names[k], exprs[k]
                            muts = [m for m in muts if m[0] != pn2]
                        elif var and var[1] in (nme, pn2):
                            pass
                        else:
                            raise ExtractError(f'{f.qual} called with {pn2} and {nme} the same object')
        # `this` of an rvalue mutated in place: materialise
        fixed = []
        for nme, x in muts:
            if isinstance(x, V) and x.t[0] == 'intghost':
                pass
            elif isinstance(x, V):
                t = self.fresh('m')
                self.emit('letmut', t, self.T.vt(x.t), x.e)
                x = L(('v', t), x.t)
            fixed.append((nme, x))
        muts = fixed
        hk = self.c.calls.get(f'{short}#{k}') or self.c.calls.get(short) if self.c else None
        marg = {f'arg_{n}': e for n, e in zip(names, exprs)}
        if hk and hk.get('before'):
            self.hint(hk['before'], marg)
        r = self.fresh('r')
        for i, e in enumerate(exprs):
            if hk and not re.match(r'^[\w.]+$', e):
                t = self.fresh('a')
                self.emit('let', t, None, e)
                exprs[i] = t
        marg = {f'arg_{n}': e for n, e in zip(names, exprs)}
        self.emit('exec', f'let {r} = {self.P.fname(f, variant_name(var))}({", ".join(f"Ghost({e})" for e in exprs)});',
                  self.label(f'precondition of {strip_ns(f.qual)} at call'))
        self.emit('let', r + 'v', None, f'{r}@')
        h0 = None
        if 'inner' not in names and 'heap' in names and self.lookup('inner') is not None:
            h0 = self.fresh('h0')
            self.emit('let', h0, 'Heap', self.lookup('heap').rust)
        for i, (nme, x) in enumerate(muts):
            if nme != 'inner':
                self.assign(x, f'{r}v.{i + 2}')
        if h0:
            self.inner_drop(h0)
        returns_this = rt[0] == 'ref' and rt[1][0] == 'cls' and f.cls is not None and not is_ctor and \
            rt[1][1] == strip_ns(f.cls['_qual']) and not rt[2]
        if hk and hk.get('after'):
            self.hint(hk['after'], dict(marg, **{'ret_': f'{r}v.1', 'exc_': f'{r}v.0'}))
        if c.throws:
            with self.sub() as sb:
                self.do_throw(f'{r}v.0')
            self.emit('if', f'!({r}v.0 is None)', sb.items, [])
        if c.lv:
            ix = self.fresh('ix')
            self.emit('let', ix, 'int', f'{r}v.1')
            return owned.lv_path(self, c, [x for nme, x in muts if nme == 'this'][0], ix)
        if returns_this:
            return [x for nme, x in muts if nme == 'this'][0]
        if self.chains(f, rt):
            return muts[0][1]
        if urt[0] == 'void':
            return V('()', ('void',))
        rv = self.fresh('v')
        self.emit('let', rv, self.T.vt(urt), f'{r}v.1')
        return V(rv, urt)

    def inline_call(self, f, obj, av):
        """callee without a contract: its body is translated in place"""
        if f.body is None:
            raise ExtractError(f'call of {f.qual} (no body, no contract)')
        if f.id in self.inline_stack or len(self.inline_stack) > 12:
            raise ExtractError(f'recursive inlining of {f.qual}')
        self.P.inlined.add(strip_ns(f.qual))
        is_ctor = f.kind == 'CXXConstructorDecl'
        rt = ('cls', strip_ns(f.cls['_qual'])) if is_ctor else self.ret_type(f)
        lv = rt[0] == 'ref' and not (is_ctor)
        frame_new = {}
        binds = []
        for i, (p, t, x) in enumerate(av):
            pn = p.get('name') or f'__p{i}'
            u = self.T.unref(t)
            if t[0] in ('ref', 'rref') and isinstance(x, L):
                b = Binding(None, x.t)
                b.path = self.freeze(x.p)
                b.src, b.extra = x.src, x.extra
            else:
                v = self.read(x)
                if v.t[0] == 'int' and u[0] == 'int' and v.t != u:
                    v = self.conv(v, u)
                if v.t[0] in ('lambda', 'fnref', 'fnptr', 'addr', 'null'):
                    b = Binding(v.e, v.t, extra=v.extra)
                    b.extra = v.extra
                    if v.t[0] not in ('lambda', 'fnptr'):
                        b.const_val = v.e
                elif isinstance(x, L) and any(x is y for y in self.temps):
                    b = Binding(None, x.t, path=x.p)
                else:
                    if self.tracked(v.t) and isinstance(x, L):
                        raise ExtractError('object with a destructor passed by value')
                    tn = self.fresh('p_' + sani(pn) + '_')
                    self.emit('letmut', tn, self.T.vt(v.t), v.e)
                    if self.tracked(v.t):
                        self.temps.append(L(('v', tn), v.t))
                    b = Binding(tn, v.t, src=v.src, extra=var_extra(v.extra))
            frame_new[pn] = frame_new['#' + p.get('id', '')] = b
        saved_scopes, saved_this = self.scopes, self.this
        # callee sees only its own names (plus globals of the root scope); keep caller names reserved
        glob = {k: v for k, v in self.scopes[0].items() if k in [g for g, _ in self.globals]}
        hidden = {f'\0{i}{n}': b for i, s in enumerate(self.scopes) for n, b in s.items()}
        self.scopes = [dict(glob), hidden, frame_new]
        self.inline_stack.append(f.id)
        saved_frame = self.frame
        try:
            if is_ctor:
                tn = self.fresh('obj')
                self.this = L(('v', tn), rt)
                with self.sub() as sb:
                    self.emit_ctor_init_as(f, tn)
                self.cur.extend(sb.items)
                fr = self.new_inline(('void',))
                self.inline_body(f, fr)
                return V(tn, rt)
            self.this = None
            if f.cls is not None and not f.is_static:
                if isinstance(obj, L):
                    self.this = L(self.freeze(obj.p), obj.t)
                else:
                    tn = self.fresh('this')
                    self.emit('letmut', tn, self.T.vt(obj.t), obj.e)
                    self.this = L(('v', tn), obj.t)
            if lv:
                fr = self.new_inline(rt)
                fr.lvret = []
                self.frame = fr
                self.seq([s for s in f.body.get('inner', []) if s])
                self.frame = saved_frame
                fr.closed = True
                if len(fr.lvret) != 1 or fr.used:
                    raise ExtractError(f'reference-returning {f.qual} with several returns')
                return fr.lvret[0]
            fr = self.new_inline(rt)
            return self.inline_body(f, fr)
        finally:
            self.inline_stack.pop()
            self.scopes, self.this = saved_scopes, saved_this
            self.frame = saved_frame

    def emit_ctor_init_as(self, f, tn):
        before = len(self.cur)
        self.emit_ctor_init(f)
        # rename the `this` it declares
        for i in range(before, len(self.cur)):
            it = self.cur[i]
            if it[0] == 'letmut' and it[1] == 'this':
                self.cur[i] = ('letmut', tn, it[2], it[3])

    def new_inline(self, rt):
        fr = Frame('inline', self.frame)
        fr.mark, fr.tmark = len(self.alive), len(self.temps)
        fr.depth = len(self.loopstack)
        fr.flag, fr.retvar, fr.rett = self.fresh('done'), self.fresh('rv'), rt
        return fr

    def inline_body(self, f, fr):
        rt = fr.rett
        stm = [s for s in f.body.get('inner', []) if s]
        # straight-line body: statements then one final return
        if stm and stm[-1]['kind'] == 'ReturnStmt' and not any(self.has_return(s) for s in stm[:-1]) \
                and rt[0] != 'void':
            self.scopes.append({})
            saved, self.frame = self.frame, fr
            for s in stm[:-1]:
                self.stmt(s)
            inner = [x for x in stm[-1].get('inner', []) if x]
            x = inner[0]
            rtu = self.T.unref(rt)
            v = V(self.default_value(rtu), rtu) if x.get('kind') == 'InitListExpr' and not x.get('inner') else self.rv(x)
            if len(self.alive) > fr.mark or len(self.temps) > fr.tmark:
                r = self.fresh('ret')
                self.emit('let', r, self.T.vt(rtu), v.e)
                v = V(r, rtu)
                self.leave(fr.mark, keep=self.returned_local(x), tmark=fr.tmark)
                del self.alive[fr.mark:], self.temps[fr.tmark:]
            self.frame = saved
            self.scopes.pop()
            return v
        with self.sub() as sb:
            saved, self.frame = self.frame, fr
            self.block(stm)
            self.frame = saved
        fr.closed = True
        if fr.used:
            self.emit('letmut', fr.flag, 'bool', 'false')
            if rt[0] != 'void':
                self.emit('letmut', fr.retvar, self.T.vt(self.T.unref(rt)), self.uninit(self.T.unref(rt)))
        self.emit('scope', sb.items)
        if rt[0] == 'void':
            return V('()', ('void',))
        return V(fr.retvar, self.T.unref(rt))

    def has_return(self, n):
        if n.get('kind') == 'ReturnStmt':
            return True
        if n.get('kind') == 'LambdaExpr':
            return False
        return any(self.has_return(x) for x in n.get('inner', []) if x)

    # ---- lambdas
    def e_LambdaExpr(self, n):
        rec = n['inner'][0]
        op = None
        for x in rec.get('inner', []):
            if x.get('kind') == 'CXXMethodDecl' and x.get('name') == 'operator()':
                op = x
        body = [x for x in n['inner'] if x.get('kind') == 'CompoundStmt'][-1]
        return V('lambda', ('lambda',), extra=(op, body))

    def named_fn(self, v):
        """a function of no arguments, stored: which one, by its name; a lambda is one when it only makes an object and calls a member of it"""
        if v.t[0] == 'fnref':
            name = strip_ns(self.ast.funcs[v.extra[0]['id']].qual)
        else:
            op, body = v.extra
            st = [s for s in body.get('inner', []) if s]
            c = st[0] if len(st) == 1 else {}
            while c.get('kind') in ('ExprWithCleanups', 'ReturnStmt') and len(c['inner']) == 1:
                c = c['inner'][0]
            m = c['inner'][0] if c.get('kind') == 'CXXMemberCallExpr' and len(c['inner']) == 1 else {}
            o = m['inner'][0] if m.get('kind') == 'MemberExpr' else {}
            f = self.ast.funcs.get(m.get('referencedMemberDecl'))
            while o.get('kind') in ('MaterializeTemporaryExpr', 'ImplicitCastExpr'):
                o = o['inner'][0]
            if f is None or o.get('kind') not in ('CXXTemporaryObjectExpr', 'CXXScalarValueInitExpr') or o.get('inner') or f.node.get('virtual'):
                raise ExtractError('lambda as a stored function')
            name = f'{strip_ns(f.qual).rpartition("::")[0]}().{f.name}()'
        return V(f'named_fn({seq_lit(list(name.encode()))})', ('fnp', ('void',)))

    def lambda_spec(self, lam, argt, dom=None):
        """spec closure text |x: T| body ; obligations inside are universally quantified"""
        if lam.t[0] == 'fnptr':
            return lam.extra
        if lam.t[0] == 'fnp':
            return lam.e
        if lam.t[0] == 'fnref':
            rd, _ = lam.extra
            f = self.ast.funcs.get(rd['id'])
            x = self.fresh('lx')
            vt = self.T.vt(argt)
            with self.sub() as sb:
                v = self.call_user(f, None, [V(x, argt)])
            self.quantify(sb.items, x, dom)
            return f'(|{x}: {vt}| {v.e})'
        op, body = lam.extra
        ps = [p for p in op.get('inner', []) if p.get('kind') == 'ParmVarDecl']
        st = [s for s in body.get('inner', []) if s]
        if len(st) != 1 or st[0]['kind'] != 'ReturnStmt' or len(ps) != 1:
            raise ExtractError('lambda body')
        x = self.fresh('lx')
        vt = self.T.vt(argt)
        self.scopes.append({ps[0]['name']: Binding(x, argt, path=('c', x))})
        with self.sub() as sb:
            v = self.rv(st[0]['inner'][0])
        self.scopes.pop()
        self.quantify(sb.items, x, dom)
        return f'(|{x}: {vt}| {v.e})'

    def quantify(self, items, x, dom):
        """obligations of a predicate hold for every element of the range it may be applied to"""
        for i in items:
            if i[0] == 'assert' and dom is not None:
                s, lo, hi = dom
                body = subst(i[1], {x: f'{s}[_q]'})
                self.emit('assert', f'(forall|_q: int| #![trigger {s}[_q]] {lo} <= _q < {hi} ==> {body})', i[2])
            elif i[0] == 'assume':
                pass
            else:
                raise ExtractError('effect inside a lambda')


def float_key(v):
    import struct
    return str(struct.unpack('<Q', struct.pack('<d', float(v)))[0])


def cstr_bytes(lit):
    """C string literal source text -> list of bytes"""
    i = lit.index('"')
    s = lit[i + 1:-1]
    out = []
    j = 0
    esc = {'n': 10, 't': 9, 'r': 13, '0': 0, 'a': 7, 'b': 8, 'f': 12, 'v': 11, '\\': 92, '"': 34, "'": 39, '?': 63}
    while j < len(s):
        ch = s[j]
        if ch != '\\':
            out += list(ch.encode('utf-8'))
            j += 1
            continue
        j += 1
        e = s[j]
        if e == 'x':
            m = re.match(r'[0-9a-fA-F]+', s[j + 1:])
            out.append(int(m.group(0), 16) & 255)
            j += 1 + len(m.group(0))
        elif e in '01234567':
            m = re.match(r'[0-7]{1,3}', s[j:])
            out.append(int(m.group(0), 8) & 255)
            j += len(m.group(0))
        elif e in 'uU':
            w = 4 if e == 'u' else 8
            out += list(chr(int(s[j + 1:j + 1 + w], 16)).encode('utf-8'))
            j += 1 + w
        else:
            out.append(esc[e])
            j += 1
    return out


def seq_lit(bs):
    if not bs:
        return 'Seq::<u8>::empty()'
    return 'seq![' + ', '.join(f'{b}u8' for b in bs) + ']'


import rawmem    # noqa: E402
import owned     # noqa: E402 (it needs the definitions above)
