"""items of xlate -> Verus source text with a line -> obligation map"""
import re
from xlate import subst, idents


class Out:
    def __init__(self):
        self.lines, self.labels = [], {}

    def add(self, ind, text, label=None, fn=None):
        for t in text.split('\n'):
            self.lines.append('    ' * ind + t)
            if label:
                self.labels[len(self.lines)] = (fn, label)
            elif fn:
                self.labels.setdefault(len(self.lines), (fn, None))

    def text(self):
        return '\n'.join(self.lines) + '\n'


def render_fn(o, x, prog, false_post=False, name=None):
    c, fn = x.c, x.label_name
    outs = x.mut_out
    tup = ['Exc', x.ret_vt] + [t for _, t in outs]
    o.add(0, '')
    o.add(0, f'// {fn}')
    rl = (c.rlimit if c and c.rlimit else 40)
    o.add(0, f'#[verifier::spinoff_prover] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::rlimit({rl})]')
    args = ', '.join(f'Ghost({n}): Ghost<{t}>' for n, t in x.sig)
    if c and c.trusted:
        o.add(0, '#[verifier::external_body]')
    o.add(0, f'fn {name or prog.fname(x.f, x.variant)}({args}) -> (res__: Ghost<({", ".join(tup)})>)')
    ren = {n: x.rust_of[n] for n in x.rust_of if n != x.rust_of[n]}
    ren.update({n + '1': r + '1' for n, r in list(ren.items())})
    if c:
        if c.requires or x.alias_req:
            o.add(1, 'requires', fn=fn)
            for r in x.alias_req:
                o.add(2, r + ',', f'where the operand lies: {r}', fn)
            for i, r in enumerate(c.requires):
                o.add(2, subst(x.aliased(r), ren) + ',', f'precondition {i + 1}: {r}', fn)
        ens = list(c.ensures)
        if c.pure is not None:
            ens = ['exc is None', f'r == ({c.pure})'] + ens
        elif not c.throws:
            ens = ['exc is None'] + ens
        if false_post:
            ens = ['false']
        if ens:
            o.add(1, 'ensures', fn=fn)
            pre = 'let exc = res__@.0; let r = res__@.1; '
            for i, (n, t) in enumerate(outs):
                pre += f'let {n}1 = res__@.{i + 2}; '
            for n, t in x.sig:          # passed by value or const reference: never changed for the caller
                if (n, t) not in outs and any(re.search(r'\b%s1\b(?!\s*\()' % re.escape(n), e) for e in ens):
                    pre += f'let {n}1 = {n}; '
            for i, e in enumerate(ens):
                o.add(2, '({ ' + pre + subst(x.aliased(e), ren) + ' }),', f'postcondition: {e}', fn)
        if c.dec:
            o.add(1, 'decreases ' + c.dec, fn=fn)
    o.add(0, '{')
    if not (c and c.trusted):
        o.add(1, 'broadcast use {lemma_search, lemma_find_if, lemma_rsearch, lemma_equal_rev, lemma_read_all, axiom_lt_F64, axiom_eq_F64, axiom_lit_F64};')
    if c and c.trusted:
        o.add(1, 'unimplemented!()')
    else:
        render_items(o, x.items, 1, x, fn)
    o.add(0, '}')


PROBE = False       # put an `assert(false)` before every return: it must not be provable (see driver.probe)


def render_items(o, items, ind, x, fn):
    for it in items:
        k = it[0]
        if k == 'assert':
            o.add(ind, f'assert({it[1]});', it[2], fn)
        elif k == 'assume':
            o.add(ind, f'assume({it[1]});', None, fn)
        elif k == 'let':
            o.add(ind, f'let ghost {it[1]}{": " + it[2] if it[2] else ""} = {it[3]};', None, fn)
        elif k == 'letmut':
            o.add(ind, f'let ghost mut {it[1]}: {it[2]} = {it[3]};', None, fn)
        elif k == 'set':
            o.add(ind, f'proof {{ {it[1]} = {it[2]}; }}', None, fn)
        elif k == 'proof':
            o.add(ind, 'proof {', None, fn)
            o.add(ind + 1, it[1], 'proof step', fn)
            o.add(ind, '}', None, fn)
        elif k == 'exec':
            o.add(ind, it[1], it[2], fn)
        elif k == 'any':
            o.add(ind, f'let {it[1]}_h = havoc::<{it[2]}>(); let ghost {it[1]}: {it[2]} = {it[1]}_h@;', None, fn)
        elif k == 'if':
            o.add(ind, f'if test(Ghost(({it[1]}))) {{', None, fn)
            render_items(o, it[2], ind + 1, x, fn)
            if it[3]:
                o.add(ind, '} else {', None, fn)
                render_items(o, it[3], ind + 1, x, fn)
            o.add(ind, '}', None, fn)
        elif k == 'loop':
            sp = it[1]
            o.add(ind, 'loop', sp['label'], fn)
            if sp['inv']:
                o.add(ind + 1, 'invariant', None, fn)
                for i in sp['inv']:
                    o.add(ind + 2, i + ',', f'{sp["label"]}: {i}', fn)
            if sp['ens']:
                o.add(ind + 1, 'ensures', None, fn)
                for i in sp['ens']:
                    o.add(ind + 2, i + ',', f'{sp["label"]} at exit: {i}', fn)
            if sp['dec']:
                o.add(ind + 1, 'decreases ' + sp['dec'], sp['label'].replace('invariant', 'termination'), fn)
            o.add(ind, '{', None, fn)
            render_items(o, it[2], ind + 1, x, fn)
            o.add(ind, '}', None, fn)
        elif k == 'scope':
            o.add(ind, '{', None, fn)
            render_items(o, it[1], ind + 1, x, fn)
            o.add(ind, '}', None, fn)
        elif k == 'break':
            o.add(ind, 'break;', None, fn)
        elif k == 'continue':
            o.add(ind, 'continue;', None, fn)
        elif k == 'return':
            if PROBE:
                o.add(ind, 'assert(false);', 'PROBE', fn)
            vals = [it[1], it[2]] + [n for n, _ in x.mut_out]
            o.add(ind, f'return Ghost(({", ".join(vals)}));', it[3], fn)
        elif k == 'unreachable':
            pass
        else:
            raise Exception(k)
