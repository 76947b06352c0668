#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough]

1. extract the typed AST of /repo's current sources, generate the obligations of
   every contract of the property and discharge them (z3; thorough: cvc5 as well)
2. run the falsifier: contract preconditions instantiated on the compiled library
   (address/UB sanitizers, library assertions on) against an independent oracle
exit 0: all proved (or, where extraction broke, bounded check passed); 1: VIOLATION.
"""
import argparse, glob, hashlib, importlib, json, os, signal, subprocess, sys, tempfile, time, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('CPPVC_REPO', '/repo')
TRUSTED = ['clang 18 AST (parsing, template instantiation, overload resolution)',
           'cppvc: verification condition generator in /verif/cppvc (symbolic executor, closed-form loop synthesis is only a guess and is re-proved, normaliser, axiom instantiation)',
           'z3 5.3.2 (python3-vt)']
ASSUME = ['double arithmetic is treated as exact real arithmetic (no rounding, no NaN/Inf, no -0)',
          'int arithmetic is treated as mathematical (no overflow)',
          'memory allocation succeeds']


def sources():
    s = sorted(glob.glob(REPO + '/src/*.cpp'))
    return s


def incs():
    return ['-I%s/include' % REPO, '-I%s/modules/partition/include' % REPO, '-I%s/modules/sparsesolver/include' % REPO,
            '-I/usr/include/suitesparse', '-I' + os.path.join(HERE, 'falsify')]


def driver_text(spec):
    t = ['#include <cassert>', '#include <functional>', '#include <list>', '#include <unordered_map>', '#include <cstring>', '#include <memory>', '#include <queue>']
    t += ['#include "%s"' % s for s in sources()]
    t += ['#include "linalgcpp.hpp"']
    t += getattr(spec, 'PREAMBLE', [])
    t.append('namespace linalgcpp {')
    t += getattr(spec, 'DRIVER', [])
    t.append('}')
    return '\n'.join(t).replace('@REPO@', REPO) + '\n'


class Falsifier(object):
    def __init__(self, prop, spec, first):
        self.prop, self.spec, self.first = prop, spec, first
        self.stage, self.res = 'compile', dict(ran=False)
        self.dir = tempfile.mkdtemp(prefix='cppvc-f')
        self.src = os.path.join(HERE, 'falsify', prop + '.cpp')
        self.bin = os.path.join(self.dir, 'f')
        self.err = ''
        self.procs = []
        if not os.path.exists(self.src):
            self.src = None
            return
        flags = ['-std=c++11', '-O1', '-g0', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
                 '-D_GLIBCXX_ASSERTIONS'] + incs()
        srcs = sources() + [s.replace('@REPO@', REPO) for s in getattr(spec, 'FALSIFY_SOURCES', [])] + [self.src]
        self.objs = []
        log = open(os.path.join(self.dir, 'log'), 'wb')
        skip = ('argparser.cpp', 'timer.cpp')
        for i, s in enumerate(srcs):
            if os.path.basename(s) in skip: continue
            o = os.path.join(self.dir, '%d.o' % i)
            self.objs.append(o)
            self.procs.append(subprocess.Popen(['g++'] + flags + ['-c', s, '-o', o], stderr=log, stdout=log))

    def _spawn(self, cmd, out, **kw):
        """child in its own process group, output to a file (no pipes shared with forked provers)"""
        f = open(os.path.join(self.dir, out), 'wb')
        p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, start_new_session=True, **kw)
        f.close()
        return p

    def _text(self, out):
        try: return open(os.path.join(self.dir, out), errors='replace').read()
        except OSError: return ''

    def poll(self):
        """advance compile -> link -> run without blocking; True once there is a result"""
        if self.src is None or self.stage in ('done', 'failed'): return True
        if self.stage == 'compile':
            if any(p.poll() is None for p in self.procs): return False
            if any(p.returncode for p in self.procs):
                self.stage, self.err = 'failed', self._text('log')[-3000:]
                return True
            self.link = self._spawn(['g++', '-fsanitize=address,undefined', '-o', self.bin] + self.objs +
                                    getattr(self.spec, 'FALSIFY_LIBS', []) + ['-llapack', '-lblas'], 'link')
            self.stage = 'link'
        if self.stage == 'link':
            if self.link.poll() is None: return False
            for o in self.objs:
                if os.path.exists(o): os.unlink(o)
            if self.link.returncode:
                self.stage, self.err = 'failed', self._text('link')[-3000:]
                return True
            self.start(*self.first)
        if self.stage == 'run':
            rc = self.proc.poll()
            if rc is None:
                if time.time() < self.deadline: return False
                try: os.killpg(self.proc.pid, signal.SIGKILL)
                except OSError: pass
                self.proc.wait()
                self.res = dict(ran=True, rc=99, out='FALSIFIED op=? why=does not terminate case=?', cmd=self.cmd)
            else:
                txt = self._text('out')
                self.res = dict(ran=True, rc=rc, out=txt[-8000:], cmd=self.cmd)
                m = [l for l in txt.splitlines() if l.startswith('PASSED')] if rc == 0 else []
                if m:
                    d = dict(x.split('=') for x in m[-1].split()[1:])
                    self.res.update(cases=int(d['cases']), nontrivial=int(d['nontrivial']),
                                    samples=[l[7:] for l in txt.splitlines() if l.startswith('SAMPLE')])
                elif rc == 0: self.res['rc'] = 98
            self.res['secs'] = round(time.time() - self.t0, 1)
            self.stage = 'done'
        return True

    def start(self, seed, budget, extra):
        env = dict(os.environ, ASAN_OPTIONS='abort_on_error=1:handle_abort=0:handle_segv=0:detect_leaks=0:allocator_may_return_null=1',
                   UBSAN_OPTIONS='abort_on_error=1:print_stacktrace=0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
        cmd = [self.bin, '--seed', str(seed), '--budget', str(budget)]
        if extra: cmd += ['--extra', ','.join(str(x) for x in extra)]
        wd = os.path.join(self.dir, 'wd')
        os.makedirs(wd, exist_ok=True)
        self.cmd, self.t0 = cmd[1:], time.time()
        self.deadline = self.t0 + budget * 10 + 120
        self.proc = self._spawn(cmd, 'out', env=env, cwd=wd)
        self.stage = 'run'

    def wait(self):
        while not self.poll(): time.sleep(0.2)

    def falsified(self):
        return self.poll() and self.stage == 'done' and self.res.get('rc') != 0

    def close(self):
        for p in self.procs + [x for x in (getattr(self, 'link', None), getattr(self, 'proc', None)) if x]:
            if p.poll() is None:
                try: p.kill()
                except OSError: pass
                p.wait()
        shutil.rmtree(self.dir, ignore_errors=True)


def known_findings(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % prop): out.append(l[len('finding: property=%s ' % prop):])
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', default=None)
    ap.add_argument('--no-falsify', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    thorough = a.tier == 'thorough'
    spec = importlib.import_module('specs.' + a.prop)
    from cppvc import spec as S
    from cppvc.frontend import Program, CompileError
    fz = None if a.no_falsify else Falsifier(a.prop, spec, (seed, getattr(spec, 'BUDGET', 6) * (10 if thorough else 1), []))
    try:
        return go(a, spec, S, Program, CompileError, fz, seed, thorough, t0)
    finally:
        if fz: fz.close()


def go(a, spec, S, Program, CompileError, fz, seed, thorough, t0):
    prop = a.prop
    items = S.CONTRACTS.get(prop, [])
    if a.only: items = [i for i in items if a.only in i[0]]
    perr = None
    P = None
    try:
        P = Program(driver_text(spec))
    except Exception as e:
        perr = '%s: %s' % (type(e).__name__, e)
    tload = time.time() - t0
    seen = []

    def stop(done):
        """a failing input is known: keep proving until an obligation has failed too, but not for longer than this"""
        if not fz.falsified(): return False
        if not seen: seen.append(time.time())
        return any(not x['ok'] for o in done for x in o.obls) or time.time() - seen[0] > 150
    if P is not None:
        outs = S.run_all(P, items, jobs=8, timeout=10000 if not thorough else 30000,
                         second=30000 if not thorough else 120000, limit=getattr(spec, 'LIMIT', 420) * (3 if thorough else 1),
                         stop=stop if fz and fz.src else None)
    else:
        outs = []
        for n, f, k in items:
            o = S.Outcome(n)
            o.error = 'extraction: ' + perr
            outs.append(o)
    tproof = time.time() - t0 - tload
    failed, broken = [], []
    nob = nok = 0
    solver = 0.0
    for o in outs:
        nob += len(o.obls)
        nok += sum(1 for x in o.obls if x['ok'])
        solver += sum(x['secs'] for x in o.obls)
        bad = [x for x in o.obls if not x['ok']]
        if o.error: broken.append((o, o.error))
        elif bad:
            if o.gaps: broken.append((o, 'no invariant found for %s' % '; '.join(o.gaps)[:600]))
            elif all('timeout' in x['reason'] or 'worker died' in x['reason'] or 'canceled' in x['reason'] or 'resource' in x['reason'] for x in bad):
                broken.append((o, 'solver timeout on %s' % bad[0]['name']))
            else: failed.append((o, bad))
        if a.v or os.environ.get('CPPVC_VERBOSE'):
            print('%-50s obl %3d ok %3d %6.1fs %s' % (o.name, len(o.obls), len(o.obls) - len(bad), o.secs, o.error or ''))
            for x in bad:
                print('    FAIL %s | %s @ %s : %s\n        %s' % (x['name'], x['kind'], x['where'], x['reason'], x['goal'][:700]))
            if bad and o.gaps: print('    gaps', o.gaps)
    literals = sorted(set(x for o in outs for x in o.literals))
    # ---------------- falsifier
    fres = dict(ran=False)
    if fz is not None and fz.src:
        fz.wait()
        if fz.stage == 'failed':
            fres = dict(ran=False, error='falsifier does not compile against the current sources: ' + fz.err[-1500:])
        else:
            fres = fz.res
            if (failed or broken) and fres.get('rc') == 0:
                # look harder: other seed, double budget, the literals of the code under contract
                fz.start(seed + 1, fz.first[1] * 2, literals[:30])
                fz.wait()
                fres = fz.res
    falsified = fres.get('ran') and fres.get('rc') != 0
    kf = known_findings(prop)
    for k in kf: print('KNOWN-FINDING: property=%s %s' % (prop, k))
    viol = 0
    rdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, '%s.txt' % prop)
    if os.path.exists(path): os.unlink(path)
    if falsified or failed:
        viol = 1
        with open(path, 'w') as f:
            f.write('property %s\n' % prop)
            for o, bad in failed:
                f.write('\ncontract %s: %d of %d obligations not discharged\n' % (o.name, len(bad), len(o.obls)))
                f.write('functions: %s\n' % '; '.join(o.funcs))
                for x in bad:
                    f.write('FAILED OBLIGATION %s: %s @ %s\n  solver: %s\n  goal: %s\n' % (x['name'], x['kind'], x['where'], x['reason'], x['goal']))
                    for h in x.get('hyps', []): f.write('    hyp: %s\n' % h)
            if falsified:
                f.write('\nfailing input on the real code (falsify/%s.cpp %s)\n' % (prop, ' '.join(fres.get('cmd', []))))
                f.write(fres['out'][-7000:] + '\n')
            else:
                f.write('\nno failing input found by the falsifier: %s\n' % json.dumps({k: v for k, v in fres.items() if k != 'out'}))
        rel = os.path.relpath(path, HERE)
    # ---------------- evidence
    ev = dict(property=prop, tier=a.tier, seed=seed, level='proof', wall_s=round(time.time() - t0, 1), violations=viol)
    bounded = [dict(contract=o.name, reason=r, stand_in='falsifier (random, bounded sizes), not proved') for o, r in broken]
    bounded += [dict(contract=n, reason=r, stand_in='falsifier (random, bounded sizes), not proved') for n, r in getattr(spec, 'BOUNDED', [])]
    ev['coverage'] = dict(obligations=nob, discharged=nok, checker_cmd='python3-vt check.py %s --tier %s' % (prop, a.tier), trusted_base=TRUSTED,
                          contracts=len(outs), contracts_proved=sum(1 for o in outs if not o.error and all(x['ok'] for x in o.obls)),
                          functions_under_contract=sorted(set(f for o in outs for f in o.funcs)),
                          functions_inlined=sorted(set(f for o in outs for f in o.inlined)),
                          solver_seconds=round(solver, 2), backend={'z3': nok}, extraction_seconds=round(tload, 1), proof_seconds=round(tproof, 1),
                          slowest=sorted([[x['name'], x['secs']] for o in outs for x in o.obls], key=lambda z: -z[1])[:5],
                          bounded=bounded,
                          evaluations=fres.get('cases', 0), distinct_nontrivial=fres.get('nontrivial', 0),
                          rule='falsifier cases: random operands of bounded size satisfying the precondition, run on the compiled library; non-trivial: at least one stored entry / element',
                          samples=fres.get('samples', []), falsifier={k: v for k, v in fres.items() if k not in ('out', 'samples')})
    ev['assumptions'] = ASSUME + sorted(set('assumed contract (std model): ' + x for o in outs for x in o.libused)) + \
        sorted(set('assumed: ' + x for o in outs for x in o.assumptions)) + getattr(spec, 'ASSUME', [])
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    print('%s: %d/%d obligations discharged, %d contracts (%d not proved), falsifier %s, %.0f s' %
          (prop, nok, nob, len(outs), len(broken) + len(failed),
           'rc=%s cases=%s' % (fres.get('rc'), fres.get('cases')) if fres.get('ran') else 'not run: ' + str(fres.get('error', ''))[:300], time.time() - t0))
    for o, r in broken: print('  bounded: %s (%s)' % (o.name, r[:300]))
    if falsified:
        l = [x for x in fres['out'].splitlines() if 'FALSIFIED' in x]
        for o, bad in failed: print('  failed obligation %s: %s @ %s' % (bad[0]['name'], bad[0]['kind'], bad[0]['where']))
        if l: print('  ' + l[-1][:1500])
        else: print(fres['out'][-1500:])
        print('VIOLATION property=%s replay=%s' % (prop, rel))
        return 1
    if broken and not fres.get('ran') and not failed:
        print('undecided: extraction broke and the bounded check could not run')
        return 2
    if failed:
        for o, bad in failed: print('  %s: %s @ %s' % (bad[0]['name'], bad[0]['kind'], bad[0]['where']))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rel))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
