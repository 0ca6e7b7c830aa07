"""type-level functions: class template specialisations, alias templates and constexpr predicates become Verus functions over a datatype of
C++ types (contracts/types.rs).

The text is what clang -E leaves of the trait headers in REPO.  A template with specialisations becomes a chain of cases, the more specialised
first, in the order C++ prescribes; two specialisations that may both match while neither is more specialised give an obligation that they do not.
A member `Type` is a partial function (None: the program is ill-formed or substitution fails).  Overloads f(T*) and f(...) called with nullptr are
resolved as C++ does: the first when its parameter and result types can be formed.  decltype(e) in a default argument is a predicate of the
normalised text of e (validity of an arbitrary expression is a question to the C++ front end, not to the traits)."""
import hashlib
import os
import re
import subprocess

from cxxast import ExtractError, INC
from render import Out

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOK = re.compile(r'\s+|//[^\n]*|::|&&|\|\||->|\.\.\.|<=|>=|==|!=|<<|\+\+|--|"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|\d[\w.]*|[A-Za-z_]\w*|.', re.S)
PRIM = {'bool': 'Bool', 'char': 'Char', 'signed char': 'SChar', 'unsigned char': 'UChar', 'wchar_t': 'WChar', 'char8_t': 'Char8', 'char16_t': 'Char16', 'char32_t': 'Char32', 'short': 'Short',
        'unsigned short': 'UShort', 'int': 'Int', 'unsigned': 'UInt', 'unsigned int': 'UInt', 'long': 'Long', 'unsigned long': 'ULong', 'long long': 'LLong',
        'unsigned long long': 'ULLong', 'float': 'Float', 'double': 'Double', 'long double': 'LDouble'}
WORDS = {'unsigned', 'signed', 'long', 'short', 'int', 'char', 'bool', 'float', 'double', 'wchar_t', 'char8_t', 'char16_t', 'char32_t', 'void'}
STD_PRED = ('void null_pointer integral floating_point array pointer lvalue_reference rvalue_reference enum union class function member_object_pointer '
            'member_function_pointer fundamental arithmetic scalar object compound reference member_pointer const volatile signed unsigned').split()
STD_OPEN1 = ('trivial trivially_copyable standard_layout empty polymorphic abstract constructible trivially_constructible nothrow_constructible default_constructible '
             'trivially_default_constructible nothrow_default_constructible copy_constructible trivially_copy_constructible nothrow_copy_constructible move_constructible '
             'trivially_move_constructible nothrow_move_constructible copy_assignable trivially_copy_assignable nothrow_copy_assignable move_assignable '
             'trivially_move_assignable nothrow_move_assignable destructible trivially_destructible nothrow_destructible').split()
STD_OPEN2 = 'assignable trivially_assignable nothrow_assignable base_of convertible'.split()
STD_TYPE = 'remove_cv remove_const remove_volatile add_const add_volatile add_cv remove_reference add_lvalue_reference add_rvalue_reference add_pointer remove_pointer'.split()


def preprocessed(std):
    r = subprocess.run(['clang++', '-std=' + std, '-E', '-I' + INC, '-x', 'c++', '-'], input='#include "Caitlyn/__Core/Traits.h"\n', capture_output=True, text=True)
    if r.returncode:
        raise ExtractError('clang -E failed: ' + r.stderr[:500])
    out, on, f = [], False, ''
    for l in r.stdout.split('\n'):
        m = re.match(r'# \d+ "([^"]*)"', l)
        if m:
            f = os.path.normpath(m.group(1))
            on = f.startswith(os.path.normpath(INC)) and ('/Traits' in f or f.endswith('/Types.h'))
        elif on:
            out.append(l)
    return '\n'.join(out)


class P:
    """recursive descent over the tokens of the headers"""
    def __init__(self, text):
        self.t = [x for x in (m.group(0) for m in TOK.finditer(text)) if x.strip() and not x.startswith('//')]
        self.i = 0
        self.templates, self.aliases, self.funcs, self.plain = {}, {}, {}, {}

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ''

    def take(self, x=None):
        v = self.peek()
        if x is not None and v != x:
            raise ExtractError(f'trait headers: expected {x}, found {" ".join(self.t[self.i:self.i + 6])}')
        self.i += 1
        return v

    def skip_to(self):
        """to the end of a declaration that is not a template"""
        while self.peek() not in (';', '{', ''):
            self.i += 1
        if self.peek() == '{':
            self.braces()
            if self.peek() == ';':
                self.i += 1
        else:
            self.i += 1

    def braces(self, o='{', c='}'):
        a = self.i
        d = 0
        while True:
            x = self.take()
            d += (x == o) - (x == c)
            if d == 0:
                return self.t[a + 1:self.i - 1]
            if x == '':
                raise ExtractError('trait headers: unbalanced')

    def decls(self):
        while self.peek():
            if self.peek() == 'namespace':
                self.i += 1
                if self.peek() != '{':
                    self.i += 1
                self.take('{')
            elif self.peek() in ('}', ';'):
                self.i += 1
            elif self.peek() == 'template':
                self.template()
            elif self.peek() == 'using' and self.peek(2) == '=':
                a = self.i
                name = self.t[a + 1]
                self.i += 3
                try:
                    t = self.type({})
                    self.take(';')
                    self.plain[name] = t
                except ExtractError:
                    self.i = a
                    self.skip_to()
            else:
                self.skip_to()

    def params(self):
        self.take('<')
        ps = []
        k = 0
        while self.peek() != '>':
            pack = False
            if self.peek() in ('typename', 'class'):
                self.i += 1
                kind = 'T'
            else:
                w = self.take()
                while self.peek() == '::':
                    self.i += 1
                    w = self.take()
                kind = {'Bool': 'B', 'bool': 'B', 'size_t': 'N', 'SizeType': 'N'}.get(w)
                if kind is None:
                    raise ExtractError(f'trait headers: template parameter of type {w}')
            if self.peek() == '...':
                pack = True
                self.i += 1
            name = self.take() if re.match(r'[A-Za-z_]', self.peek()) else f'_{k}'
            d = None
            if self.peek() == '=':
                self.i += 1
                a = self.i
                sc = {p[0]: p[1] for p in ps}
                d = self.type(sc) if kind == 'T' else self.expr(sc)
            ps.append((name, kind, d, pack))
            k += 1
            if self.peek() == ',':
                self.i += 1
        self.take('>')
        return ps

    def template(self):
        self.take('template')
        ps = self.params()
        sc = {p[0]: p[1] for p in ps}
        if self.peek() in ('struct', 'class'):
            self.i += 1
            name = self.take()
            args = self.targs(sc) if self.peek() == '<' else None
            base = None
            if self.peek() == ';':
                self.i += 1
                return
            if self.peek() == 'final':
                self.i += 1
            if self.peek() == ':':
                self.i += 1
                if self.peek() in ('public', 'private'):
                    self.i += 1
                base = self.type(sc)
            body = self.body(sc)
            self.take(';')
            self.templates.setdefault(name, []).append((ps, args, base, body))
        elif self.peek() == 'using':
            self.i += 1
            name = self.take()
            self.take('=')
            self.aliases[name] = (ps, self.type(sc))
            self.take(';')
        else:
            self.func(ps, sc)

    def body(self, sc):
        """members: using Type = t"""
        self.take('{')
        m = {}
        while self.peek() != '}':
            if self.peek() == 'using' and self.peek(2) == '=':
                n = self.t[self.i + 1]
                self.i += 3
                a = self.i
                try:
                    m[n] = self.type(sc)
                    self.take(';')
                except ExtractError:
                    if n == 'Type':
                        raise
                    self.i = a
                    self.skip_to()
            elif self.peek() in ('public', 'private') and self.peek(1) == ':':
                self.i += 2
            elif self.peek() == 'static' and 'Value' in self.t[self.i:self.i + 5]:
                while self.take() != '=':
                    pass
                m['Value'] = self.expr(sc)
                self.take(';')
            else:
                self.skip_to()
        self.take('}')
        return m

    def func(self, ps, sc):
        while self.peek() in ('constexpr', 'inline', 'static'):
            self.i += 1
        a = self.i
        try:
            rt = 'auto' if self.peek() == 'auto' else self.type(sc)
            if rt == 'auto':
                self.i += 1
            name = self.take()
            if not re.match(r'[A-Za-z_]\w*$', name) or self.peek() != '(':
                raise ExtractError('not a function')
            self.take('(')
            par = []
            while self.peek() != ')':
                if self.peek() == '...':
                    self.i += 1
                    par.append('...')
                else:
                    par.append(self.type(sc))
                    if re.match(r'[A-Za-z_]', self.peek()):
                        self.i += 1
                if self.peek() == ',':
                    self.i += 1
            self.take(')')
            if self.peek() == 'noexcept':
                self.i += 1
            if self.peek() == '->':
                self.i += 1
                rt = self.type(sc)
            body = None
            if self.peek() == '{':
                b = self.i
                toks = self.braces()
                e = self.i
                self.i = b + 1
                try:
                    body = self.block(sc, e - 1)
                except ExtractError:
                    body = None
                self.i = e
            else:
                self.take(';')
            self.funcs.setdefault(name, []).append((ps, rt, par, body))
        except ExtractError:
            self.i = a
            self.skip_to()

    def block(self, sc, end):
        """local types and constants, statements without effect, then `return e;`"""
        sc = dict(sc)
        lets = []
        while self.i < end:
            x = self.peek()
            if x == ';':
                self.i += 1
            elif x == 'static_assert' or self.t[self.i:self.i + 3] == ['(', 'void', ')'] or self.t[self.i:self.i + 4] == ['static_cast', '<', 'void', '>']:
                # evaluates a constant, or fails to compile
                while self.take() != ';':
                    pass
            elif x == 'using' and self.peek(2) == '=' or x == 'typedef':
                if x == 'using':
                    n = self.peek(1)
                    self.i += 3
                    t = self.type(sc)
                else:
                    self.i += 1
                    t = self.type(sc)
                    n = self.take()
                self.take(';')
                sc[n] = 'T'
                lets.append((n, 'T', t))
            elif x in ('const', 'constexpr', 'bool', 'Bool', 'static') or x == 'SizeType':
                while self.peek() in ('const', 'constexpr', 'static'):
                    self.i += 1
                k = {'bool': 'B', 'Bool': 'B', 'auto': 'B', 'SizeType': 'N'}.get(self.take())
                if k is None:
                    raise ExtractError('trait headers: local variable')
                n = self.take()
                c = self.take()
                if c not in ('=', '{', '('):
                    raise ExtractError('trait headers: local variable')
                e = self.expr(sc)
                if c != '=':
                    self.take('}' if c == '{' else ')')
                self.take(';')
                sc[n] = k
                lets.append((n, k, e))
            elif x == 'return':
                self.i += 1
                e = self.expr(sc)
                self.take(';')
                if self.i != end and any(y != ';' for y in self.t[self.i:end]):
                    raise ExtractError('trait headers: text after return')
                for n, k, d in reversed(lets):
                    e = ('let', n, k, d, e)
                return e
            else:
                raise ExtractError('trait headers: statement ' + x)
        raise ExtractError('trait headers: no return')

    # ---- types
    def targs(self, sc):
        self.take('<')
        out = []
        while self.peek() != '>':
            out.append(self.targ(sc))
            if self.peek() == ',':
                self.i += 1
        self.take('>')
        return out

    def targ(self, sc):
        """a type or an expression"""
        a = self.i
        try:
            t = self.type(sc)
            if self.peek() in (',', '>') and not (t[0] == 'param' and sc.get(t[1]) != 'T'):
                return t
        except ExtractError:
            pass
        self.i = a
        return ('expr', self.expr(sc))

    def type(self, sc):
        c = v = False
        words = []
        core = None
        while True:
            x = self.peek()
            if x == 'const':
                c = True
            elif x == 'volatile':
                v = True
            elif x == 'typename':
                pass
            elif x in WORDS and core is None:
                words.append(x)
            elif core is None and not words:
                core = self.core(sc)
                continue
            else:
                break
            self.i += 1
        if words:
            core = self.prim(words)
        if core is None:
            raise ExtractError('trait headers: no type at ' + ' '.join(self.t[self.i:self.i + 5]))
        t = ('cv', c, v, core) if c or v else core
        while True:
            x = self.peek()
            if x == '*':
                self.i += 1
                t = ('ptr', t)
                c = v = False
                while self.peek() in ('const', 'volatile'):
                    c, v = c or self.peek() == 'const', v or self.peek() == 'volatile'
                    self.i += 1
                if c or v:
                    t = ('cv', c, v, t)
            elif x == '&':
                self.i += 1
                t = ('lref', t)
            elif x == '&&':
                self.i += 1
                t = ('rref', t)
            elif x == '[':
                self.i += 1
                if self.peek() == ']':
                    t = ('open', t)
                else:
                    t = ('arr', t, self.take())
                self.take(']')
            else:
                return t

    def prim(self, words):
        w = sorted(words, key=lambda s: ['signed', 'unsigned', 'short', 'long', 'int', 'char', 'double'].index(s) if s in ('signed', 'unsigned', 'short', 'long', 'int', 'char', 'double') else 9)
        s = ' '.join(w)
        if s == 'void':
            return ('void',)
        if s not in PRIM:
            s = re.sub(r' int$', '', s)
            s = re.sub(r'^signed (?!char)', '', s)
            s = 'int' if s == 'signed' else s
        if s not in PRIM:
            raise ExtractError(f'trait headers: type {s}')
        return ('prim', PRIM[s])

    def core(self, sc):
        if self.peek() == 'decltype':
            self.i += 1
            a = self.i
            toks = self.braces('(', ')')
            e = self.i
            # decltype(F<T>(nullptr))::Type
            self.i = a + 1
            while self.peek(1) == '::':
                self.i += 2
            if self.peek(1) == '<' and self.peek() not in ('declval',):
                f = self.take()
                try:
                    args = self.targs(sc)
                    if self.t[self.i:e] == ['(', 'nullptr', ')', ')']:
                        self.i = e
                        self.take('::')
                        return ('overload', f, args, self.take())
                except ExtractError:
                    pass
            self.i = e
            if toks == ['nullptr']:
                return ('null',)
            if toks in (['false'], ['true']):
                return ('prim', 'Bool')
            return ('valid', ' '.join(toks))
        q = []
        if self.peek() == '::':
            self.i += 1
        name = self.take()
        if not re.match(r'[A-Za-z_]\w*$', name) or name in ('true', 'false', 'nullptr', 'sizeof', 'return', 'static_cast'):
            raise ExtractError(f'trait headers: type starting with {name}')
        std = False
        while self.peek() == '::' and (name in ('std', '__Detail', 'Traits', 'Caitlyn')):
            std = std or name == 'std'
            self.i += 1
            name = self.take()
        if std and name == 'nullptr_t':
            return ('null',)
        if name in sc:
            t = ('param', name)
            if self.peek() == '::':
                raise ExtractError('trait headers: member of a template parameter')
            return t
        if self.peek() == '<':
            args = self.targs(sc)
            mem = None
            if self.peek() == '::':
                self.i += 1
                if self.peek() == 'template':
                    raise ExtractError('member template')
                mem = self.take()
            return ('app', ('std::' if std else '') + name, args, mem)
        mem = None
        if self.peek() == '::':
            self.i += 1
            mem = self.take()
        return ('name', ('std::' if std else '') + name, mem)

    # ---- expressions
    def expr(self, sc):
        l = self.and_(sc)
        while self.peek() == '||':
            self.i += 1
            l = ('or', l, self.and_(sc))
        if self.peek() == '?':
            self.i += 1
            a = self.expr(sc)
            self.take(':')
            l = ('if', l, a, self.expr(sc))
        return l

    def and_(self, sc):
        l = self.cmp(sc)
        while self.peek() == '&&':
            self.i += 1
            l = ('and', l, self.cmp(sc))
        return l

    def cmp(self, sc):
        l = self.un(sc)
        if self.peek() in ('<', '==', '!=') or self.peek() == '>' and l[0] == 'num':
            op = self.take()
            r = self.un(sc)
            return ('cmp', op, l, r)
        return l

    def un(self, sc):
        x = self.peek()
        if x == '!':
            self.i += 1
            return ('not', self.un(sc))
        if x == '(':
            self.i += 1
            e = self.expr(sc)
            self.take(')')
            return e
        if x in ('true', 'false'):
            self.i += 1
            return ('lit', x)
        if re.match(r'\d+$', x):
            self.i += 1
            return ('num', x)
        if x == 'alignof' and self.peek(1) == '(':
            self.i += 2
            t = self.type(sc)
            self.take(')')
            return ('value', ('app', 'std::alignment_of', [t], None))
        if x in sc and sc[x] == 'T' and self.peek(1) == '(':
            self.i += 2
            s = ''
            if self.peek() == '-':
                s = self.take()
            n = self.take()
            self.take(')')
            if not re.match(r'\d+$', n):
                raise ExtractError('trait headers: conversion of ' + n)
            return ('num_of', x, s + n)
        if x in sc and sc[x] != 'T':
            self.i += 1
            return ('pval', x)
        t = self.core(sc)
        if self.peek() == '(' and self.peek(1) == ')' and t[0] == 'app' and t[3] is None:
            self.i += 2
            return ('call', t[1], t[2])
        if self.peek() in ('{',) and self.peek(1) == '}':
            self.i += 2
            return ('value', t)
        if t[0] == 'app' and t[3] in ('Value', 'value'):
            return ('value', ('app', t[1], t[2], None))
        if t[0] == 'app' and t[3] == 'Type' and self.peek() == '::':
            self.i += 1
            self.take()
            return ('value', t)
        if t[0] == 'name' and t[2] in ('Value', 'value'):
            return ('value', ('name', t[1], None))
        raise ExtractError(f'trait headers: expression {t}')


def closes(t):
    """one pair of parentheses around everything"""
    d = 0
    for i, x in enumerate(t):
        d += (x == '(') - (x == ')')
        if d == 0:
            return i > 0 and i == len(t) - 1
    return False


def valid_name(text, names):
    """predicate for the validity of an expression; names: its template parameters in order"""
    for k, n in enumerate(names):
        text = re.sub(rf'\b{n}\b', 'T' if k == 0 else f'T{k}', text)
    text = re.sub(r'\s+', ' ', text.replace('std :: ', '').replace('std::', ''))
    t = [x for x in (m.group(0) for m in TOK.finditer(text)) if x.strip()]
    # a conversion to void and parentheses around it all change nothing
    while True:
        if t[:3] == ['(', 'void', ')']:
            t = t[3:]
        elif t[:4] == ['static_cast', '<', 'void', '>'] and closes(t[4:]):
            t = t[5:-1]
        elif t[:1] == ['void'] and closes(t[1:]):
            t = t[2:-1]
        elif t[-4:] == [',', 'void', '(', ')']:
            t = t[:-4]
        elif closes(t):
            t = t[1:-1]
        else:
            break
    # declval<T&&>() is declval<T>()
    text = ' '.join(t).replace('declval < T && >', 'declval < T >')
    return 'valid_' + hashlib.md5(text.encode()).hexdigest()[:8], text


def as_expr(a):
    """a template argument that stands for a value: it may have been read as a type"""
    if a[0] == 'expr':
        return a[1]
    if a[0] == 'param':
        return ('pval', a[1])
    if a[0] == 'app' and a[3] in ('Value', 'value'):
        return ('value', a[:3] + (None,))
    if a[0] == 'name' and a[2] in ('Value', 'value'):
        return ('value', ('name', a[1], None))
    raise ExtractError(f'trait headers: value {a}')


def names(e):
    while e[0] == 'let':
        yield e[1], e[2]
        e = e[4]


class Gen:
    def __init__(self, std="c++11"):
        self.p = P(preprocessed(std))
        self.p.decls()
        self.o, self.done, self.valids, self.inprog = [], {}, {}, []
        self.obl = []

    # ---- evaluation of types: (expression, conditions for it to exist)
    def ty(self, t, env):
        k = t[0]
        if k == 'param':
            return env[t[1]], []
        if k == 'void':
            return 'tb(B::Void)', []
        if k == 'null':
            return 'tb(B::Null)', []
        if k == 'prim':
            return f'tb(B::Pr(Pk::{t[1]}))', []
        if k == 'cv':
            e, c = self.ty(t[3], env)
            return f'add_cv({e}, {str(t[1]).lower()}, {str(t[2]).lower()})', c
        if k in ('ptr', 'lref', 'rref'):
            e, c = self.ty(t[1], env)
            return f'mk_{k}({e})', c + [f'ok_{k}({e})']
        if k == 'app':
            return self.member(t, env)
        if k == 'overload':
            return self.overload(t, env)
        if k == 'name' and t[2] is None and t[1] in self.p.plain:
            return self.ty(self.p.plain[t[1]], {})
        if k == 'name' and t[2] is None and t[1] in ('Bool',):
            return 'tb(B::Pr(Pk::Bool))', []
        if k == 'name' and t[2] is None and t[1] in ('NullPtr',):
            return 'tb(B::Null)', []
        if k == 'valid':
            n, text = valid_name(t[1], [x for x in env])
            self.valids[n] = (text, len(env))
            return 'tb(B::Void)', [f'{n}({", ".join(env.values())})']
        raise ExtractError(f'trait headers: type {t}')

    def args(self, ps, args, env, name):
        """arguments as Verus expressions, defaults filled in"""
        out, conds, e2 = [], [], {}
        for i, (n, kind, d, pack) in enumerate(ps):
            if pack:
                raise ExtractError('parameter pack')
            if i < len(args):
                a, sc = args[i], env
            elif d is not None:
                a, sc = (d if kind == 'T' else ('expr', d)), e2
            else:
                raise ExtractError(f'missing argument of {name}')
            if kind == 'T':
                e, c = self.ty(a, sc)
                conds += c
            else:
                e = self.ex(as_expr(a), sc)
            out.append(e)
            e2[n] = e
        return out, conds

    def primary(self, name):
        for s in self.p.templates.get(name, ()):
            if s[1] is None:
                return s
        raise ExtractError(f'no template {name}')

    def member(self, t, env):
        _, name, args, mem = t
        if name == 'Indicator':
            cs = []
            for a in args:
                cs += self.ty(a, env)[1]
            return 'tb(B::Void)', cs
        if name.startswith('std::'):
            n = name[5:]
            if n == 'conditional' and mem == 'type':
                c = self.ex(as_expr(args[0]), env)
                a, ca = self.ty(args[1], env)
                b, cb = self.ty(args[2], env)
                return f'(if {c} {{ {a} }} else {{ {b} }})', ca + cb
            if n == 'enable_if' and mem == 'type':
                e, c = self.ty(args[1], env) if len(args) > 1 else ('tb(B::Void)', [])
                return e, [self.ex(as_expr(args[0]), env)] + c
            if n in STD_TYPE and mem == 'type':
                e, c = self.ty(args[0], env)
                return f'std_{n}({e})', c
            raise ExtractError(f'trait headers: {name}')
        if name in self.p.aliases:
            ps, body = self.p.aliases[name]
            a, c = self.args(ps, args, env, name)
            e2 = {p[0]: x for p, x in zip(ps, a)}
            if mem is not None:
                raise ExtractError('member of an alias')
            e, c2 = self.ty(body, e2)
            return e, c + c2
        if mem != 'Type':
            raise ExtractError(f'trait headers: {name}<...>::{mem}')
        ps = self.primary(name)[0]
        a, c = self.args(ps, args, env, name)
        f = self.fn(name, 't')
        e = f'{f}({", ".join(a)})'
        return f'{e}->Some_0', c + [f'{e} is Some']

    def overload(self, t, env):
        _, f, args, mem = t
        fs = self.p.funcs.get(f, [])
        first = [x for x in fs if x[2] != ['...']]
        rest = [x for x in fs if x[2] == ['...']]
        if len(first) != 1 or len(rest) != 1 or mem != 'Type':
            raise ExtractError(f'overload set {f}')

        def one(x):
            a, c = self.args(x[0], args, env, f)
            e2 = {p[0]: y for p, y in zip(x[0], a)}
            cs = list(c)
            for q in x[2]:
                if q != '...':
                    if q[0] != 'ptr':
                        raise ExtractError(f'overload set {f}: a parameter that is no pointer')
                    cs += self.ty(q, e2)[1]
            r = x[1]
            if r[0] != 'app' or r[3] is not None:
                raise ExtractError(f'overload set {f}: result')
            # the arguments of the result decide the substitution, its member Type is looked up afterwards
            ra, rc = self.args(self.primary(r[1])[0], r[2], e2, r[1])
            g = self.fn(r[1], 't')
            return f'{g}({", ".join(ra)})', cs + rc
        a, ca = one(first[0])
        b, cb = one(rest[0])
        e = f'(if {self.all(ca)} {{ {a} }} else if {self.all(cb)} {{ {b} }} else {{ None }})'
        return f'{e}->Some_0', [f'{e} is Some']

    @staticmethod
    def all(cs):
        cs = list(dict.fromkeys(cs))
        return ' && '.join(f'({c})' for c in cs) if cs else 'true'

    # ---- evaluation of boolean expressions
    def ex(self, e, env):
        k = e[0]
        if k in ('or', 'and'):
            return f'({self.ex(e[1], env)} {"||" if k == "or" else "&&"} {self.ex(e[2], env)})'
        if k == 'if':
            return f'(if {self.ex(e[1], env)} {{ {self.ex(e[2], env)} }} else {{ {self.ex(e[3], env)} }})'
        if k == 'let':
            return self.ex(e[4], dict(env, **{e[1]: self.good(e[3], env) if e[2] == 'T' else self.ex(e[3], env)}))
        if k == 'not':
            return f'!({self.ex(e[1], env)})'
        if k == 'lit':
            return e[1]
        if k == 'num':
            return e[1]
        if k == 'num_of':
            self.need([f'({env[e[1]]}.b is Pr || {env[e[1]]}.b is Enum)'])
            return f'num_of({env[e[1]]}, {e[2]})'
        if k == 'cmp':
            return f'({self.ex(e[2], env)} {e[1]} {self.ex(e[3], env)})'
        if k == 'pval':
            return env[e[1]]
        if k == 'value':
            return self.val(e[1], env)
        if k == 'call':
            return self.call(e[1], e[2], env)
        raise ExtractError(f'trait headers: expression {e}')

    def val(self, t, env):
        """the Value of a type derived from BooleanConstant"""
        if t[0] == 'name':
            if t[1] in self.p.plain:
                return self.val(self.p.plain[t[1]], {})
            if t[1] in ('std::true_type', 'std::false_type'):
                return 'true' if 'true' in t[1] else 'false'
        if t[0] == 'app':
            _, name, args, mem = t
            if name == 'BooleanConstant' and mem in (None, 'Type'):
                ps = self.primary(name)[0]
                pr = self.primary(name)[3]
                e2 = {ps[0][0]: self.ex(as_expr(args[0]), env)}
                return self.ex(pr['Value'], e2)
            if name.startswith('std::') and mem is None:
                n = name[5:]
                if n in ('rank', 'extent', 'alignment_of') and len(args) == 1:
                    return f'std_{n}({self.good(args[0], env)})'
                if n == 'is_same' and len(args) == 2:
                    return f'({self.good(args[0], env)} == {self.good(args[1], env)})'
                if n == 'integral_constant' and len(args) == 2:
                    return self.ex(as_expr(args[1]), env)
                n = n[3:] if n.startswith('is_') else n
                if n in STD_PRED or n in STD_OPEN1 or n == 'has_virtual_destructor':
                    if len(args) == 1:
                        return f'std_is_{n}({self.good(args[0], env)})'
                if n in STD_OPEN2 and len(args) == 2:
                    return f'std_is_{n}({self.good(args[0], env)}, {self.good(args[1], env)})'
                raise ExtractError(f'trait headers: {name}')
            if mem in (None, 'Type'):
                if name in self.p.aliases:
                    ps, body = self.p.aliases[name]
                    a, c = self.args(ps, args, env, name)
                    self.need(c)
                    return self.val(body, {p[0]: x for p, x in zip(ps, a)})
                ps = self.primary(name)[0]
                a, c = self.args(ps, args, env, name)
                self.need(c)
                f = self.fn(name, 'v')
                self.need([f'ok_{f}({", ".join(a)})'])
                return f'{f}({", ".join(a)})'
        raise ExtractError(f'trait headers: value of {t}')

    def good(self, a, env):
        e, c = self.ty(a, env)
        self.need(c)
        return e

    def need(self, cs):
        """conditions without which the program is ill-formed"""
        self.needs += cs

    def call(self, name, args, env):
        f = self.predicate(name)
        ps = self.p.funcs[name][0][0]
        a, c = self.args(ps, args, env, name)
        self.need(c)
        self.need([f'ok_{f}({", ".join(a)})'])
        return f'{f}({", ".join(a)})'

    KIND = {'T': 'Ty', 'B': 'bool', 'N': 'nat'}

    def sig(self, ps):
        return ', '.join(f'a{i}: {self.KIND[p[1]]}' for i, p in enumerate(ps))

    def predicate(self, name):
        key = ('p', name)
        if key in self.done:
            return self.done[key]
        fs = self.p.funcs.get(name, [])
        if len(fs) != 1 or fs[0][3] is None:
            raise ExtractError(f'trait function {name} is not a single return')
        ps, rt, par, body = fs[0]
        f = self.done[key] = 'f_' + name
        env = {p[0]: f'a{i}' for i, p in enumerate(ps)}
        self.push()
        e = self.ex(body, env)
        rt = rt[1] if rt[0] == 'name' else rt
        last = body
        while last[0] == 'let':
            last = last[4]
        num = last[0] == 'pval' and any(x == last[1] and k == 'N' for x, k in names(body)) or last[0] == 'num' or last[0] == 'value' and last[1][0] == 'app' and last[1][1] in ('std::rank', 'std::extent', 'std::alignment_of')
        rk = 'bool'
        if num:
            # the number converted to the type of the result
            rk = 'int'
            bits = {'UInt8': 8, 'UInt16': 16, 'UInt32': 32, ('prim', 'UChar'): 8, ('prim', 'UShort'): 16, ('prim', 'UInt'): 32}.get(rt)
            if rt in ('Bool', ('prim', 'Bool')):
                e = f'(if {e} != 0 {{ 1int }} else {{ 0int }})'
            elif bits:
                e = f'({e} % {1 << bits}) as int'
            elif rt in ('SizeType', 'std::size_t', 'size_t', 'UInt64', ('prim', 'ULong'), ('prim', 'ULLong')):
                e = f'{e} as int'
            else:
                raise ExtractError(f'{name} returns {rt}')
        elif rt not in ('Bool', ('prim', 'Bool')):
            raise ExtractError(f'{name} returns {rt}')
        self.o.append(f'pub open spec fn {f}({self.sig(ps)}) -> {rk} {{ {e} }}')
        self.pop(f, ps)
        return f

    def push(self):
        self.inprog.append(getattr(self, 'needs', []))
        self.needs = []

    def pop(self, f, ps):
        """ok_f: evaluating f is a well-formed program"""
        self.o.append(f'pub open spec fn ok_{f}({self.sig(ps)}) -> bool {{ {self.all(self.needs)} }}')
        self.needs = self.inprog.pop()

    def fn(self, name, what):
        key = (what, name)
        if key in self.done:
            return self.done[key]
        f = self.done[key] = f'{what}_{name}'
        specs = self.p.templates[name]
        pr = self.primary(name)
        ps = pr[0]
        parts = [s for s in specs if s[1] is not None]
        order = self.order(name, parts)
        cases = []
        self.push()
        for s in order:
            env, conds = {}, []
            later = []
            args = list(s[1])
            k = len(args)
            for i, a in enumerate(args):
                self.match(a, f'a{i}', env, conds, s, later, ps[i][1])
            # defaults of the primary fill the rest of a specialisation's arguments
            e2 = {ps[i][0]: None for i in range(k)}
            for a, e in later:
                x, c = self.ty(a, env)
                conds.append(f'{e} == {x}')
                conds += c
            if k < len(ps):
                out, c = self.args(ps, args, env, name)
                for i in range(k, len(ps)):
                    conds.append(f'a{i} == {out[i]}' if ps[i][1] == 'T' else f'a{i} == {out[i]}')
            cases.append((self.all(conds), self.result(s, env, what)))
        cases.append(('true', self.result(pr, {p[0]: f'a{i}' for i, p in enumerate(ps)}, what)))
        for i, j in self.clash:
            self.obl.append((f'specialisations {i + 1} and {j + 1} of {name} never both match unordered', self.sig(ps), f'!({cases[i][0]} && {cases[j][0]})' + ''.join(f' || {cases[k][0]}' for k in range(min(i, j)))))
        ret = 'bool' if what == 'v' else 'Option<Ty>'
        body = ''.join(f'if {c} {{ {r} }} else ' for c, r in cases[:-1]) + f'{{ {cases[-1][1]} }}'
        self.o.append(f'pub open spec fn {f}({self.sig(ps)}) -> {ret} {{ {body} }}')
        self.pop(f, ps)
        return f

    def result(self, s, env, what):
        _, _, base, body = s
        if what == 'v':
            if 'Value' in body:
                return self.ex(body['Value'], env)
            if base is None:
                raise ExtractError('trait without Value')
            return self.val(base, env)
        if 'Type' in body:
            e, c = self.ty(body['Type'], env)
            return f'if {self.all(c)} {{ Some({e}) }} else {{ None }}'
        if base is not None and base[0] == 'app':
            e, c = self.ty(base[:3] + ('type' if base[1].startswith('std::') else 'Type',), env)
            return f'if {self.all(c)} {{ Some({e}) }} else {{ None }}'
        return 'None'

    def match(self, a, e, env, conds, s, later, kind):
        k = a[0]
        names = {p[0] for p in s[0]}
        if kind != 'T':
            if k == 'param' or k == 'expr' and a[1][0] == 'pval':
                n = a[1] if k == 'param' else a[1][1]
                if n in env:
                    conds.append(f'{e} == {env[n]}')
                env[n] = e
            else:
                v = self.ex(as_expr(a), env)
                conds.append(e if v == 'true' else f'!{e}' if v == 'false' else f'{e} == {v}')
            return
        if k == 'param':
            if a[1] in env:
                conds.append(f'{e} == {env[a[1]]}')
            else:
                env[a[1]] = e
            return
        c = v = False
        t = a
        if k == 'cv':
            c, v, t = a[1], a[2], a[3]
            if t[0] == 'param':
                conds += [f'is_c({e})'] * c + [f'is_v({e})'] * v
                x = f'strip_cv({e}, {str(c).lower()}, {str(v).lower()})'
                if t[1] in env:
                    conds.append(f'{x} == {env[t[1]]}')
                else:
                    env[t[1]] = x
                return
        if t[0] in ('ptr', 'lref', 'rref', 'open', 'arr'):
            var = {'ptr': 'Ptr', 'lref': 'LRef', 'rref': 'RRef', 'open': 'Open', 'arr': 'Arr'}[t[0]]
            conds.append(f'{e}.b is {var}')
            if t[0] not in ('open', 'arr'):
                conds += [f'{e}.c == {str(c).lower()}', f'{e}.v == {str(v).lower()}']
            elif c or v:
                raise ExtractError('cv array pattern')
            if t[0] == 'arr':
                n = t[2]
                if n in names:
                    if n in env:
                        conds.append(f'{e}.b->Arr_1 == {env[n]}')
                    env[n] = f'{e}.b->Arr_1'
                else:
                    conds.append(f'{e}.b->Arr_1 == {n}')
            self.match(t[1], f'(*{e}.b->{var}_0)', env, conds, s, later, 'T')
            return
        later.append((a, e))

    # ---- which specialisation is more specialised
    def order(self, name, parts):
        n = len(parts)
        more = [[i != j and self.general(parts[j][1], parts[i][1]) and not self.general(parts[i][1], parts[j][1]) for j in range(n)] for i in range(n)]
        out, left = [], list(range(n))
        while left:
            k = next((i for i in left if not any(more[j][i] for j in left)), None)
            if k is None:
                raise ExtractError(f'specialisations of {name}')
            out.append(k)
            left.remove(k)
        self.clash = [(x, y) for x in range(n) for y in range(x + 1, n) if not more[out[x]][out[y]] and self.overlap(parts[out[x]][1], parts[out[y]][1])]
        return [parts[i] for i in out]

    def general(self, b, a):
        """does the pattern b match every type that the pattern a stands for?"""
        env = {}
        return len(a) == len(b) and all(self.gen1(y, x, env) for x, y in zip(a, b))

    def gen1(self, b, a, env):
        if b[0] == 'param':
            return env.setdefault(b[1], a) == a
        if b[0] == 'cv' and b[3][0] == 'param':
            if a[0] != 'cv' or (b[1] and not a[1]) or (b[2] and not a[2]):
                return False
            c, v = a[1] and not b[1], a[2] and not b[2]
            x = ('cv', c, v, a[3]) if c or v else a[3]
            return env.setdefault(b[3][1], x) == x
        if a[0] != b[0]:
            return False
        if b[0] == 'cv':
            return a[1:3] == b[1:3] and self.gen1(b[3], a[3], env)
        if b[0] in ('ptr', 'lref', 'rref', 'open'):
            return self.gen1(b[1], a[1], env)
        if b[0] == 'arr':
            return self.gen1(b[1], a[1], env)
        return a == b

    def overlap(self, a, b):
        """may both match one argument list?"""
        def heads(x):
            while x[0] == 'cv':
                x = x[3]
            return x
        for x, y in zip(a, b):
            x, y = heads(x), heads(y)
            if x[0] != 'param' and y[0] != 'param' and x[0] in ('prim', 'void', 'ptr', 'lref', 'rref', 'open', 'arr', 'null', 'expr') and y[0] in ('prim', 'void', 'ptr', 'lref', 'rref', 'open', 'arr', 'null', 'expr') and (x[0] != y[0] or x[0] in ('prim', 'expr') and x != y):
                return False
        return True

    def alias(self, name):
        """an alias template as a partial function"""
        key = ('a', name)
        if key in self.done:
            return self.done[key]
        if name not in self.p.aliases:
            raise ExtractError(f'no alias template {name}')
        f = self.done[key] = 'a_' + name
        ps, body = self.p.aliases[name]
        env = {p[0]: f'a{i}' for i, p in enumerate(ps)}
        self.push()
        e, c = self.ty(body, env)
        self.o.append(f'pub open spec fn {f}({self.sig(ps)}) -> Option<Ty> {{ if {self.all(c)} {{ Some({e}) }} else {{ None }} }}')
        self.pop(f, ps)
        return f

    def value(self, name):
        """a class or alias with Value"""
        if name in self.p.aliases:
            key = ('va', name)
            if key not in self.done:
                f = self.done[key] = 'v_' + name
                ps, body = self.p.aliases[name]
                self.push()
                e = self.val(body, {p[0]: f'a{i}' for i, p in enumerate(ps)})
                self.o.append(f'pub open spec fn {f}({self.sig(ps)}) -> bool {{ {e} }}')
                self.pop(f, ps)
            return self.done[key]
        return self.fn(name, 'v')


class F:
    def __init__(self, qual):
        self.qual = qual


class Stub:
    """one contract, as driver.run expects its functions"""
    def __init__(self, name):
        self.label_name, self.c, self.loopk, self.f = name, self, 0, F(name)
        self.trusted, self.loops, self.requires = False, [], []

    def label(self):
        return self.label_name


class Prog:
    def __init__(self):
        self.inlined, self.notes = set(), []


class TraitSpec:
    """contracts: (kind, name, ensures, requires); kind p: predicate function, v: class with Value, a: alias template"""
    def __init__(self, contracts, prelude, std='c++11'):
        self.contracts, self.prelude, self.std = [(k, n, self.since(e, std), r and self.since(r, std)) for k, n, e, r in contracts], prelude, std

    @staticmethod
    def since(text, std):
        """/*20 ...*/ holds from C++20 on"""
        return re.sub(r'/\*20 (.*?)\*/', r'\1' if std >= 'c++20' else '', text)

    def generate(self, work, only=None, skip_reach=False):
        g = Gen(self.std)
        xs, tail, sigs = [], [], []
        for kind, name, ens, req in self.contracts:
            every, kind = kind == 'A', kind.lower()
            f = {'p': g.predicate, 'v': g.value, 'a': g.alias}[kind](name)
            ps = g.p.funcs[name][0][0] if kind == 'p' else g.p.aliases[name][0] if name in g.p.aliases else g.primary(name)[0]
            ps2 = ps if kind == 'p' or name in g.p.aliases else [p for p in ps if p[2] is None]
            if not every and (len(ps2) != len(ps) or any(p[2] for p in ps2)):
                # the defaults of the template are what a user leaves out
                full = f
                f = f + '_use'
                env = {p[0]: f'a{i}' for i, p in enumerate(ps)}
                a, c = g.args(ps, [('param', p[0]) if p[1] == 'T' else ('expr', ('pval', p[0])) for p in ps if p[2] is None], env, name)
                use = [p for p in ps if p[2] is None]
                rt = 'bool' if kind != 'a' else 'Option<Ty>'
                g.o.append(f'pub open spec fn {f}({g.sig(use)}) -> {rt} {{ {full}({", ".join(a)}) }}' if kind != 'a' else f'pub open spec fn {f}({g.sig(use)}) -> {rt} {{ if {g.all(c)} {{ {full}({", ".join(a)}) }} else {{ None }} }}')
                if kind != 'a':
                    g.o.append(f'pub open spec fn ok_{f}({g.sig(use)}) -> bool {{ {g.all(c + [f"ok_{full}({chr(44).join(a)})"])} }}')
                else:
                    g.o.append(f'pub open spec fn ok_{f}({g.sig(use)}) -> bool {{ true }}')
                ps = use
            ens = re.sub(r'VALID\{(.*?)\}', lambda m: self.valid(g, m.group(1)) + '(a0)', ens)
            n = f'{f}({", ".join(f"a{i}" for i in range(len(ps)))})'
            sigs.append(ps)
            tail.append((name, g.sig(ps), [f'wf(a{i})' for i, p in enumerate(ps) if p[1] == 'T'] + ([req] if req else []), [(ens.replace('$r', n), ens.replace('$r', 'result'))] + ([(f'ok_{n}', 'the definition is well-formed')] if kind != 'a' else [])))
            xs.append(Stub(name))
        o = Out()
        o.add(0, '#![allow(unused, non_camel_case_types, non_snake_case)]')
        o.add(0, 'use vstd::prelude::*;')
        o.add(0, 'verus! {')
        for l in self.since(open(os.path.join(ROOT, 'contracts', self.prelude)).read(), self.std).rstrip('\n').split('\n'):
            o.add(0, l)
        for n in STD_OPEN1 + ['has_virtual_destructor']:
            o.add(0, f'pub uninterp spec fn std_is_{n}(t: Ty) -> bool;')
        for n in STD_OPEN2:
            o.add(0, f'pub uninterp spec fn std_is_{n}(t: Ty, u: Ty) -> bool;')
        for n, (text, k) in sorted(g.valids.items()):
            o.add(0, f'// {text}')
            o.add(0, f'pub uninterp spec fn {n}({", ".join(f"t{i}: Ty" for i in range(k))}) -> bool;')
        for l in g.o:
            o.add(0, l)
        for i, (lab, sig, e) in enumerate(g.obl):
            o.add(0, f'proof fn order_{i}({sig})')
            o.add(1, 'ensures')
            o.add(2, e + ',', lab, lab.split()[-6])
            o.add(0, '{ }')
        for i, (name, sig, req, ens) in enumerate(tail):
            o.add(0, f'// {name}')
            o.add(0, f'proof fn c_{i}_{name}({sig})', None, name)
            if req:
                o.add(1, 'requires')
                for r in req:
                    o.add(2, r + ',')
            o.add(1, 'ensures')
            for e, lab in ens:
                o.add(2, e + ',', f'{name}: {lab}', name)
            o.add(0, '{ ' + ' '.join(f'lem_strip({q});' for q in [f'a{k}' for k, p in enumerate(sigs[i]) if p[1] == 'T']) + ' }', None, name)
        o.add(0, '}')
        return Prog(), xs, o

    @staticmethod
    def valid(g, text):
        n, t = valid_name(text, ['T'])
        g.valids.setdefault(n, (t, 1))
        return n
