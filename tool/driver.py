"""extract /repo's current code, attach contracts, run Verus, map its answers back to obligations"""
import json, os, re, subprocess, sys, time, glob
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from cxxast import Ast, ExtractError, REPO, INC, strip_ns
import xlate
from xlate import Program, Types
from stdlib import Lib
import rawmem
import render
from render import Out, render_fn

HEADERS = ['__Core/String.h', '__Core/Error.h', '__Core/File.h', '__Core/IO.h', '__Core/Memory.h',
           '__Core/Collections.h', '__Core/Utility.h', '__Core/Traits.h', '__Core/Numeric.h', '__Numeric/Types.h',
           '__Serializing/Json.h', '__Testing/Macro.h', '__Caitlyn/Application.h']


def tu_text(extra=''):
    std = set()
    for d, _, fs in os.walk(INC):
        for f in fs:
            try:
                txt = open(os.path.join(d, f), errors='replace').read()
            except OSError:
                continue
            std |= set(re.findall(r'^\s*#\s*include\s*<([\w./]+)>', txt, re.M))
    out = ['#include <cstdint>']
    for h in sorted(std):
        out.append(f'#if __has_include(<{h}>)\n#include <{h}>\n#endif')
    # operators defined at global scope land in an inline namespace so that the AST dump includes them
    out.append('''#include <Caitlyn/__Caitlyn/Namespace.h>
#undef __CAITLYN_GLOBAL_NAMESPACE_BEGIN
#undef __CAITLYN_GLOBAL_NAMESPACE_END
#define __CAITLYN_GLOBAL_NAMESPACE_BEGIN } namespace Caitlyn {
#define __CAITLYN_GLOBAL_NAMESPACE_END } inline namespace CaitlynOps {
inline namespace CaitlynOps {''')
    for h in HEADERS:
        if os.path.exists(os.path.join(INC, 'Caitlyn', h)):
            out.append(f'#include <Caitlyn/{h}>')
    out.append('}')
    out.append(extra)
    return '\n'.join(out) + '\n'


class Result:
    def __init__(self):
        self.ok = False
        self.extract_error = None
        self.failed = []        # (fn, label, message)
        self.verified = self.errors = 0
        self.fns, self.times = [], {}
        self.tool_error = None
        self.output = ''
        self.wall = 0.0
        self.inlined, self.notes = [], []
        self.assumes = 0
        self.nobl = 0
        self.undecided = []


def generate(spec, work, only=None, skip_reach=False):
    if hasattr(spec, 'generate'):
        return spec.generate(work, only, skip_reach)
    ast = Ast(tu_text(spec.tu_extra), work)
    lib = spec.make_lib()
    prog = Program(ast, spec.contracts, lib)
    roots = []
    for r in spec.roots:
        c = [c for c in spec.contracts if c is r or c.label() == r or c.qual == r]
        fs = []
        for cc in c:
            fs += [f for fl in ast.byqual.values() for f in fl if cc.matches(f) and (f.body is not None)]
        fs = list({f.id: f for f in fs}.values())
        if not fs:
            raise ExtractError(f'{r if isinstance(r, str) else r.label()} is not in the source any more')
        roots += fs
    if only:
        roots = [f for f in roots if re.search(only, strip_ns(f.qual))]
    xs = prog.run(roots)
    o = Out()
    o.add(0, '#![allow(unused, non_camel_case_types, non_snake_case, unreachable_code, unused_mut)]')
    o.add(0, 'use vstd::prelude::*; use vstd::assert_seqs_equal;')
    for m in spec.uses:
        o.add(0, f'use {m};')
    o.add(0, 'verus! {')
    for fn in spec.rs:
        t = open(os.path.join(ROOT, 'contracts', fn)).read()
        if '//STRUCTS' in t:
            t = t.replace('//STRUCTS', '')
        for l in t.rstrip('\n').split('\n'):
            o.add(0, l)
    for x in xs:
        pass
    # structs needed by contracts even when the code does not mention them
    for cname in spec.use_classes:
        prog.T.use(cname)
    for l in prog.T.struct_defs().split('\n'):
        o.add(0, l)
    for fn in spec.rs2:
        for l in (fn[1:] if fn[0] == '=' else open(os.path.join(ROOT, 'contracts', fn)).read()).rstrip('\n').split('\n'):
            o.add(0, l)
    for x in xs:
        render_fn(o, x, prog)
        if not skip_reach and x.c is not None and x.c.requires:
            # vacuity guard: from the preconditions alone `false` must not follow
            o.add(0, f'proof fn reach_{prog.fname(x.f, x.variant)}({", ".join(f"{n}: {t}" for n, t in x.sig)})')
            ren = {n: x.rust_of[n] for n in x.rust_of if n != x.rust_of[n]}
            o.add(1, 'requires')
            for r in x.alias_req + x.c.requires:
                o.add(2, xlate.subst(x.aliased(r), ren) + ',')
            o.add(0, '{')
            o.add(1, 'assert(false);', 'REACH', strip_ns(x.f.qual))
            o.add(0, '}')
    o.add(0, '}')
    if lib.T_single:
        o.lines = [rawmem.adapt(l) for l in o.lines]
    return prog, xs, o


def verus(path, timeout=600, threads=8, extra=()):
    cmd = ['verus', path, '--crate-type=lib', '--output-json', '--time', '--error-format=json', '--num-threads',
           str(threads), '--multiple-errors', '20', *extra]
    t = time.time()
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=os.path.dirname(path))
        out, err, rc = r.stdout, r.stderr, r.returncode
    except subprocess.TimeoutExpired as e:
        out, err, rc = '', 'verus: time-out', -1
    return cmd, out, err, rc, time.time() - t


def run(spec, work, only=None, keep=True):
    res = Result()
    t0 = time.time()
    try:
        prog, xs, o = generate(spec, work, only)
    except ExtractError as e:
        if os.environ.get('VP_DEBUG') == '2':
            raise
        res.extract_error = str(e)
        return res
    except (KeyError, IndexError, TypeError, AttributeError, AssertionError, RecursionError, ValueError) as e:
        if os.environ.get('VP_DEBUG'):
            raise
        res.extract_error = f'extractor: {type(e).__name__}: {e}'
        return res
    path = os.path.join(work, 'extracted.rs')
    with open(path, 'w') as f:
        f.write(o.text())
    res.fns = [x.label_name for x in xs]
    res.contracts = [x.c.label() for x in xs if x.c and not x.c.trusted]
    res.trusted = [x.c.label() for x in xs if x.c and x.c.trusted]
    res.inlined = sorted(prog.inlined)
    res.notes = prog.notes
    # contract shape against code shape
    for x in xs:
        if x.c and x.loopk != len(x.c.loops):
            res.notes.append(f'{x.label_name}: {x.loopk} loops, {len(x.c.loops)} loop contracts')
            if x.loopk < len(x.c.loops) or x.loopk > len(x.c.loops):
                res.shape = True
    cmd, out, err, rc, dt = verus(path)
    res.cmd, res.wall = cmd, dt
    res.output = err
    res.assumed = sorted({re.sub(r'\b([a-zA-Z_]\w*?)\d+\b', r'\1', l.strip()) for l in o.lines if l.strip().startswith('assume(')})
    res.nassume = sum(1 for l in o.lines if l.strip().startswith('assume('))
    res.nobl = sum(1 for k, v in o.labels.items() if v[1] and v[1] != 'REACH')
    try:
        j = json.loads(out)
    except ValueError:
        res.tool_error = 'no verifier answer: ' + (err[-2000:] or out[-500:])
        return res
    v = j.get('verification-results', {})
    res.verified, res.errors = v.get('verified', 0), v.get('errors', 0)
    tm = j.get('times-ms', {})
    res.smt_ms = tm.get('smt', {}).get('total', 0)
    for m in tm.get('smt', {}).get('smt-run-module-times', []):
        for fb in m.get('function-breakdown', []):
            res.times[fb['function'].split('::')[-1]] = fb.get('time-micros', fb.get('time', 0)) / 1e6
    reach_ok = set()
    other = []
    for line in err.split('\n'):
        if not line.startswith('{'):
            continue
        try:
            d = json.loads(line)
        except ValueError:
            continue
        if d.get('level') != 'error' or not d.get('spans'):
            if d.get('level') == 'error' and 'aborting' not in d.get('message', ''):
                other.append(d.get('message'))
            continue
        labs = []
        for s in d['spans']:
            for ln in range(s['line_start'], s['line_end'] + 1):
                if ln in o.labels:
                    labs.append((o.labels[ln], s.get('is_primary'), s.get('label')))
                    break
            else:
                labs.append(((None, f'line {s["line_start"]}'), s.get('is_primary'), s.get('label')))
        if any(l[0][1] == 'REACH' for l in labs):
            reach_ok.add([l[0][0] for l in labs if l[0][1] == 'REACH'][0])
            continue
        code = d.get('code')
        msg = d.get('message', '')
        ls = d['spans'][0]['line_start']
        fn = next((l[0][0] for l in labs if l[0][0]), None)
        what = ' / '.join(dict.fromkeys(l[0][1] for l in labs if l[0][1]))
        txt = o.lines[ls - 1].strip() if ls <= len(o.lines) else ''
        if re.search(r'postcondition|precondition|invariant|assertion|decreases|arithmetic|possible|termination|recommend|Resource limit|rlimit|unreachable|could not prove', msg, re.I):
            res.failed.append((fn, what, msg, txt, ls))
        else:
            other.append(f'{msg} at generated line {ls}: {txt}')
    reach_need = {strip_ns(x.f.qual) for x in xs if x.c and x.c.requires}
    miss = reach_need - reach_ok
    res.reach = reach_ok
    if other or (v.get('encountered-vir-error')):
        res.tool_error = '; '.join(map(str, other))[:4000] or 'verifier front-end error'
    elif miss and v:
        res.tool_error = 'contradictory precondition: ' + ', '.join(sorted(miss))
    res.verified_fns = res.verified
    res.real_errors = res.errors - len(reach_ok)
    res.ok = res.tool_error is None and not res.failed and res.verified > 0
    res.gen_wall = time.time() - t0
    return res


def probe(spec, work):
    """exit probes: (returns probed, labels of functions none of whose returns the verifier can reach)"""
    render.PROBE = True
    try:
        _, _, o = generate(spec, work, skip_reach=True)
    finally:
        render.PROBE = False
    path = os.path.join(work, 'probe.rs')
    with open(path, 'w') as f:
        f.write(o.text())
    _, _, err, _, _ = verus(path)
    hit = set()
    for line in err.split('\n'):
        if line.startswith('{'):
            try:
                hit |= {s['line_start'] for s in json.loads(line).get('spans', [])}
            except ValueError:
                pass
    per = {}
    for ln, (fn, lab) in o.labels.items():
        if lab == 'PROBE':
            a = per.setdefault(fn, [0, 0])
            a[0] += 1
            a[1] += ln in hit
    return sum(a for a, _ in per.values()), sorted(f for f, (_, b) in per.items() if not b)


class Spec:
    """what one property verifies"""
    def __init__(self, roots, contracts, rs=('prelude.rs',), rs2=(), tu_extra='', lib=None, uses=(), use_classes=()):
        self.roots, self.contracts, self.rs, self.rs2 = roots, contracts, list(rs), list(rs2)
        self.tu_extra, self.uses, self.use_classes = tu_extra, list(uses), list(use_classes)
        self.lib = lib

    def make_lib(self):
        l = Lib()
        if self.lib:
            self.lib(l)
        return l
