#!/usr/bin/env python3
"""check.py <property>: verify the contracts on /repo's current source; replay failures against the real code"""
import glob, json, os, re, shutil, subprocess, sys, tempfile, threading, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path[:0] = [HERE, os.path.join(ROOT, 'contracts')]
import driver
from cxxast import REPO, INC

ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=0:exitcode=66:max_allocation_size_mb=2048',
           UBSAN_OPTIONS='halt_on_error=1:exitcode=66', MALLOC_CHECK_='0')


def write_dict(path):
    ints, strs = {0, 1, 2, 10, 127, 128, 255, 256, 65535, 65536, 1114111}, {''}
    for d, _, fs in os.walk(INC):
        for f in sorted(fs):
            try:
                t = open(os.path.join(d, f), errors='replace').read()
            except OSError:
                continue
            t = re.sub(r'//[^\n]*|/\*.*?\*/', '', t, flags=re.S)
            t2 = re.sub(r'"(?:[^"\\\n]|\\.)*"|\'(?:[^\'\\\n]|\\.)*\'', ' ', t)
            for m in re.findall(r'\b(0[xX][0-9a-fA-F]+|\d+)[uUlL]*\b', t2):
                try:
                    v = int(m, 16) if m[:2] in ('0x', '0X') else int(m)
                except ValueError:
                    continue
                if v < 1 << 62:
                    ints |= {v, v + 1, max(v - 1, 0)}
            for m in re.findall(r'"((?:[^"\\\n]|\\.)*)"|\'((?:[^\'\\\n]|\\.)+)\'', t):
                s = m[0] or m[1]
                if len(s) <= 24 and '\\' not in s:
                    strs.add(s)
    esc = lambda s: '"' + ''.join(f'\\{b:03o}' for b in s.encode()) + '"'
    with open(path, 'w') as f:
        f.write('static const long long dict_ints[] = {' + ','.join(f'{v}LL' for v in sorted(ints)) + '};\n')
        f.write('struct DictStr { const char* p; unsigned long n; };\nstatic const DictStr dict_strs[] = {'
                + ','.join(f'{{{esc(s)}, {len(s.encode())}}}' for s in sorted(strs)) + '};\n')


class Oracle:
    """the harness, built once for C++11 and once for every further standard asked for"""
    def __init__(self, src, work, flags=(), stds=()):
        self.src, self.work, self.flags = src, work, list(flags)
        self.bin = os.path.join(work, 'oracle')
        self.err = None
        self.more = {}                  # further standard -> what the compiler says against it
        write_dict(os.path.join(self.work, 'dict.h'))
        self.th = [threading.Thread(target=self.build, args=(x,)) for x in ('c++11', *stds)]
        for t in self.th:
            t.start()

    def build(self, std):
        err = None
        try:
            cmd = ['clang++', '-std=' + std, '-O1', '-g0', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
                   '-fno-sanitize=function,vptr', '-I' + INC, '-I' + os.path.join(ROOT, 'oracle'), '-I' + self.work,
                   self.src, '-o', self.bin + ('' if std == 'c++11' else std), *self.flags]
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=400)
            if r.returncode:
                err = (r.stderr or r.stdout)[-6000:]
        except Exception as e:      # noqa
            err = repr(e)
        if std == 'c++11':
            self.err = err
        else:
            self.more[std] = err

    def search(self, seed, secs, tier):
        for t in self.th:
            t.join()
        if self.err:
            return None
        res = self.run(self.bin, seed, secs, tier)
        for std, err in sorted(self.more.items()):
            if res['rc'] != 0:
                break
            if err:
                if 'error:' in err:     # the same harness compiles as C++11
                    first = [l for l in err.split('\n') if 'error:' in l][0]
                    res.update(rc=1, case=f'why: does not compile as {std}: {first}\nstandard {std}\n', stderr=err)
                continue
            x = self.run(self.bin + std, seed, secs, tier)
            if x['rc']:
                x['case'] = (x['case'] or 'why: ended with status ' + str(x['rc']) + '\n') + f'standard {std}\n'
            res = dict(x, n=x['n'] + res['n'], d=res['d'], wall=x['wall'] + res['wall'])
        return res

    def run(self, bin, seed, secs, tier):
        out, info = os.path.join(self.work, 'case'), os.path.join(self.work, 'info')
        for p in (out, info):
            if os.path.exists(p):
                os.remove(p)
        scratch = tempfile.mkdtemp(dir=self.work)
        t = time.time()
        try:
            with open(os.path.join(self.work, 'so'), 'wb') as so, open(os.path.join(self.work, 'se'), 'wb') as se:
                r = subprocess.run([bin, 'search', str(seed), str(secs), tier, out, info], stdout=so, stderr=se,
                                   stdin=subprocess.DEVNULL, timeout=secs * 4 + 240, cwd=scratch, env=ENV)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = -999
        se = open(os.path.join(self.work, 'se'), errors='replace').read()[-5000:]
        res = dict(rc=rc, wall=time.time() - t, stderr=se, case=open(out).read() if os.path.exists(out) else None, n=0, d=0, samples=[])
        if os.path.exists(info):
            for l in open(info, errors='replace'):
                k, _, v = l.rstrip('\n').partition(' ')
                if k == 'evaluations':
                    res['n'] = int(v)
                elif k == 'distinct':
                    res['d'] = int(v)
                elif k == 'sample':
                    res['samples'].append(v)
        return res


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    import specs
    P = specs.PROPS[pid]
    work = tempfile.mkdtemp(prefix=f'vp_{pid}_')
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(ROOT, 'replay'), exist_ok=True)
    replay = os.path.join(ROOT, 'replay', f'{pid}.txt')
    try:
        rc = check(pid, P, tier, seed, work, replay, t0)
    finally:
        if os.environ.get('VP_KEEP'):
            print('kept', work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def check(pid, P, tier, seed, work, replay, t0):
    orc = Oracle(os.path.join(ROOT, 'oracle', P['oracle']), work, P.get('oracle_flags', ()), P.get('oracle_std', ())) if P.get('oracle') else None
    results = []
    for k, mk in enumerate(P['specs']):
        w = os.path.join(work, f's{k}')
        os.makedirs(w)
        try:
            sp = mk()
            sp.threads = 8
            r = driver.run(sp, w)
        except Exception as e:      # noqa  any trouble of the tool itself is "undecided", never a verdict
            r = driver.Result()
            r.extract_error = f'tool: {type(e).__name__}: {e}'
            if os.environ.get('VP_DEBUG'):
                traceback.print_exc()
        results.append(r)
    undecided = [x for r in results for x in ([r.extract_error] if r.extract_error else [r.tool_error] if r.tool_error else [])]
    failed = [f for r in results if not r.tool_error and not r.extract_error for f in r.failed]
    shape = [n for r in results for n in r.notes if 'loop contracts' in n]
    if failed and shape:
        # a loop was added or removed: the loop contracts no longer fit, so a failed obligation says nothing by itself
        bad = {n.split(':')[0] for n in shape}
        bad2 = {n.rsplit(': ', 1)[0] for n in shape}
        und = [f for f in failed if f[0] in bad or f[0] in bad2]
        failed = [f for f in failed if f not in und]
        if und:
            undecided += shape
    rl = [f for f in failed if re.search(r'rlimit|Resource limit', f[2], re.I)]
    if rl:
        failed = [f for f in failed if f not in rl]
        undecided += [f'{f[0]}: {f[2]}' for f in rl]
    proved = not failed and not undecided
    # 1. what the verifier says; 2. the replay harness looks for an input
    secs = P.get('secs', 8)
    if tier == 'thorough':
        secs *= 12
    elif not proved:
        secs = max(60, secs * 5)
    o = orc.search(seed, secs, 'thorough' if (tier == 'thorough' or not proved) else 'quick') if orc else None
    for f in failed:
        print(f'failed obligation: {f[0]}: {f[1]}: {f[2]}')
    for u in undecided:
        print('not decided by the verifier:', str(u)[:600])
    rc, line = 0, None
    if o is not None and o['rc'] != 0:
        head = f'property {pid}\n'
        with open(replay, 'w') as fh:
            fh.write(head + (o['case'] or f'the harness ended with status {o["rc"]}\n'))
            for f in failed:
                fh.write(f'failed obligation: {f}\n')
            fh.write('\n--- harness output\n' + o['stderr'])
            fh.write(f'\n--- run again: sh {ROOT}/replay.sh {pid} {replay}\n')
        print((o['case'] or '').split('\n')[0], [a for a in (o['case'] or '').split('\n')[1:5]])
        rc, line = 1, f'VIOLATION property={pid} replay={replay}'
    elif failed or (orc and orc.err and undecided):
        with open(replay, 'w') as fh:
            fh.write(f'property {pid}: no failing input found by {o["n"] if o else 0} executions of the real code\n')
            for f in failed:
                fh.write(f'failed obligation: function {f[0]}; {f[1]}; {f[2]}; text: {f[3]}\n')
            for u in undecided:
                fh.write(f'undecided: {u}\n')
            if orc and orc.err:
                fh.write('the replay harness does not compile against this tree:\n' + orc.err + '\n')
            fh.write('\n--- verifier output\n')
            for r in results:
                fh.write((r.output or '')[:60000] + '\n')
        rc, line = 1, f'VIOLATION property={pid} replay={replay} no-failing-input-found'
    if orc and orc.err:
        print('warning: the replay harness does not compile:', orc.err[:300])
    nobl = sum(r.nobl for r in results)
    nver = sum(r.verified for r in results)
    ev = dict(property=pid, tier=tier, seed=seed, wall_s=round(time.time() - t0, 2), violations=1 if rc else 0,
              assumptions=__import__('specs').ASSUME.get(pid, []) + specs_common())
    cov = dict(
        obligations=nobl, discharged=nobl - len(failed) if not undecided else max(0, nobl - len(failed) - 1) if nobl else 0,
        checker_cmd='verus (Z3 back end) on text generated from /repo/include by tool/driver.py: ' + ' '.join(
            str(x) for x in (getattr(results[0], 'cmd', []) if results else [])),
        trusted_base=['clang 18 front end (AST)', 'tool/xlate.py + tool/stdlib.py (statement-by-statement extraction, library semantics)',
                      'Verus 0.2026.09.13 and Z3', 'x86-64 Linux/libstdc++ sizes'],
        functions_under_contract=sorted({c for r in results for c in getattr(r, 'contracts', [])}),
        functions_extracted=sorted({f for r in results for f in r.fns}),
        trusted_contracts=sorted({c for r in results for c in getattr(r, 'trusted', [])}),
        generated_assumptions=dict(count=sum(getattr(r, 'nassume', 0) for r in results), distinct=sorted({a[:200] for r in results for a in getattr(r, 'assumed', [])})[:60]),
        functions_inlined=sorted({f for r in results for f in r.inlined}),
        verifier_proofs=nver, solver_seconds=round(sum(getattr(r, 'smt_ms', 0) for r in results) / 1000, 2),
        slowest={k: round(v, 2) for r in results for k, v in sorted(r.times.items(), key=lambda x: -x[1])[:5]},
        vacuity_probes=sum(len(getattr(r, 'reach', ())) for r in results),
        failed_obligations=[f'{f[0]}: {f[1]}' for f in failed], undecided=[str(u)[:400] for u in undecided],
        bounded=dict(note='replay harness on the real code: validates the trusted library semantics, supplies failing inputs; bounded, never counted as proved',
                     evaluations=o['n'] if o else 0, distinct=o['d'] if o else 0, wall=round(o['wall'], 1) if o else 0,
                     samples=o['samples'] if o else [], compile_error=(orc.err or '')[:300] if orc else 'no harness'),
    )
    ev['coverage'] = cov
    if undecided and not failed:
        ev['level'] = 'exploration'
        cov.update(evaluations=o['n'] if o else 0, distinct_nontrivial=o['d'] if o else 0, rule='bounded stand-in: the verifier could not '
                   'decide this source text; cases are enumerated/sampled inputs, distinct by content', samples=(o['samples'] if o else []) or ['none'])
    else:
        ev['level'] = 'proof'
    if tier == 'thorough' and proved:
        pr = []
        for k, mk in enumerate(P['specs']):
            sp = mk()
            sp.threads = 8
            pr.append(driver.probe(sp, os.path.join(work, f's{k}')))
        cov['exit_probes'] = dict(returns=sum(a for a, _ in pr), functions_without_reachable_return=[f for _, l in pr for f in l])
    with open(os.path.join(ROOT, 'evidence', f'{pid}.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    if line:
        print(line)
    else:
        print(f'{pid}: ' + (f'proved: {nobl} obligations in {len(cov["functions_extracted"])} functions' if proved else 'NOT proved; bounded stand-in found no failing input')
              + f'; harness {o["n"] if o else 0} cases; {time.time() - t0:.1f} s')
    return rc


def specs_common():
    return ['fixed-width machine integers; signed overflow, bounds, null and unwrap obligations generated',
            'container sizes below 2^57 (address space); allocation does not fail',
            'destructors of standard containers, noexcept and object lifetime of locals follow C++ (not re-proved)',
            'aliasing between reference parameters only where a contract lists an alias variant']


if __name__ == '__main__':
    try:
        main()
    except SystemExit:
        raise
    except BaseException:       # noqa
        traceback.print_exc()
        sys.exit(1 if False else 2)
