"""Obligations, verdicts, evidence and known findings shared by all checks.

A verdict is one of
  discharged  the two value terms have the same normal form (or the rule holds at every instance),
  violated    they provably differ: the normal forms differ and an interpretation of the free
              atoms separates them (random interpretation, Gulwani & Necula), or a rule instance fails,
  undecided   anything else (construct not modelled, reference function no longer applicable).
Only `violated` makes a check exit 1; `undecided` obligations are printed and recorded."""
import json
import re
import os
import sys
import time
import traceback
from . import terms as TM
from .terms import *
from .values import *
from . import interp as IN
from .interp import Interp, State, LOC, ADDR, Unsupported
from . import program as PG
from . import cmp as CM
from . import models as MD

VERIF = PG.VERIF
SPEC = PG.SPEC
FINDINGS = os.path.join(VERIF, 'known_findings.txt')
_programs = {}
BASE_PREDS = len(TM._nonnull_preds)


def program(rels, specs=()):
    k = (tuple(rels), tuple(specs))
    if k not in _programs:
        _programs[k] = PG.Program(rels=list(rels) + [os.path.join(SPEC, s) for s in specs])
    return _programs[k]


class Ob:
    def __init__(self, name, rule, where, status, detail='', analysed=(), secs=0.0):
        self.name, self.rule, self.where, self.status, self.detail = name, rule, where, status, detail
        self.analysed = list(analysed)
        self.secs = secs


class Check:
    technique = 'gated value-flow analysis (global value numbering) of the resolved AST'

    def __init__(self, pid, title):
        self.pid = pid
        self.title = title
        self.obs = []
        self.t0 = time.time()
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.fns = {}
        self.jobs = []
        self.callsites = 0
        self.loops = 0
        self.units = set()
        self.assumptions = []
        self.trials = 64 if self.tier == 'quick' else 1024
        self.only = os.environ.get('VFA_ONLY')
        self.verbose = os.environ.get('VFA_VERBOSE')

    # ------------------------------------------------------------------ recording
    def add(self, name, rule, where, status, detail='', analysed=(), secs=0.0):
        self.obs.append(Ob(name, rule, where, status, detail, analysed, secs))
        if self.verbose:
            print('%-10s %s %.2fs %s' % (status, name, secs, detail[:2000]))

    def ok(self, name, rule, where, detail='', **kw):
        self.add(name, rule, where, 'discharged', detail, **kw)

    def bad(self, name, rule, where, detail, **kw):
        self.add(name, rule, where, 'violated', detail, **kw)

    def und(self, name, rule, where, detail, **kw):
        self.add(name, rule, where, 'undecided', detail, **kw)

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    # ------------------------------------------------------------------ reference pairs
    def load(self, rels, *specs):
        self.P = program(rels, specs)
        self.specs = specs
        self.units |= set(rels)
        return self.P

    def pairs(self, prefix=None, **opts):
        """every L_x / R_x and P_x of the loaded reference files"""
        for spec in self.specs:
            path = os.path.join(SPEC, spec)
            names = []
            for fn in self.P.fns.values():
                if fn.file == path and fn.n[:2] in ('L_', 'P_'):
                    names.append((fn.line, fn.n, fn))
            for _l, n, fn in sorted(names, key=lambda x: x[:2]):
                if prefix and not n[2:].startswith(prefix):
                    continue
                o = dict(opts)
                o.update(self.opts.get(n[2:], {}))
                self.pair(fn, **o)

    opts = {}
    skip = None

    def spec_fn(self, n):
        c = [f for f in self.P.fns.values() if f.n == n and f.file.startswith(SPEC + '/')]
        return c[0] if c else None

    def pair(self, fnL, consts=None, setup=None, fixed=None, types=False, fixeds=None, tol=None, tag='', throws=True, vacuous=False, confirm=None):
        name = fnL.n[2:]
        if self.only and not name.startswith(self.only):
            return
        fnR = None
        if fnL.n[:2] == 'L_':
            fnR = self.spec_fn('R_' + name)
            if fnR is None:
                raise PG.Broken('no reference R_%s' % name)
        for f in (fnL, fnR):
            if f is not None and f.body is None:
                self.und(name, 'value equality', fnL.where(), 'reference not applicable to this tree: %s' % f.error)
                return
        import itertools
        cs = consts or {}
        for f in (fnL, fnR):
            if f is not None and not set(cs) <= {p['n'] for p in f.params}:
                raise PG.Broken('%s does not take %s' % (f.n, sorted(cs)))
        keys = sorted(cs)
        for combo in itertools.product(*[cs[k] for k in keys]):
            if self.skip is not None and self.skip(name, dict(zip(keys, combo))):
                continue
            self.job(name + ''.join('[%s=%s]' % (k, v) for k, v in zip(keys, combo) if len(cs[k]) > 1 or k != 's') + tag, fnL, fnR,
                     dict(zip(keys, combo)), setup, fixed, types, fixeds, tol, throws, vacuous, confirm)

    def job(self, *a):
        self.jobs.append((self.pair1, a))

    def task(self, f, *a):
        """f(*a) records obligations; run with the other jobs"""
        self.jobs.append((f, a))

    def defined(self, fn, consts=None, setup=None, tag=''):
        """fn (a D_x of the reference files) reaches no undefined access: null dereference,
        element or iterator out of range, matrix index/block/size mismatch"""
        import itertools
        name = fn.n[2:]
        if self.only and not name.startswith(self.only):
            return
        if fn.body is None:
            self.und(name, 'no undefined access', fn.where(), 'reference not applicable to this tree: %s' % fn.error)
            return
        cs = consts or {}
        keys = sorted(cs)
        for combo in itertools.product(*[cs[k] for k in keys]):
            nm = name + ''.join('[%s=%s]' % (k, v) for k, v in zip(keys, combo) if len(cs[k]) > 1 or k != 's') + tag
            self.jobs.append((self.defined1, (nm, fn, dict(zip(keys, combo)), setup)))

    def defined1(self, name, fn, consts, setup):
        t0 = time.time()
        rule, where = 'no undefined access on any path', fn.where()
        I = None
        try:
            I = self.interp(setup)
            I.faults = True
            v, st, thr, g = self.eval(I, fn, consts)
            fl = [t for t in thr if isinstance(t.info, str) and t.info.startswith('vf::fault')]
            res = []
            for t in fl:
                for r in CM.compare(t.pc, FALSE, g, self.seed, path=t.info[4:], trials=self.trials):
                    res.append(r)
        except Undefined as e:
            self.account(I)
            self.bad(name, rule, where, str(e)[4:], secs=time.time() - t0, analysed=sorted('%s (%s)' % (f.q, f.where()) for f in I.analysed if not f.file.startswith(SPEC)))
            return
        except (Unsupported, Blowup) as e:
            self.account(I)
            self.und(name, rule, where, '%s: %s' % (type(e).__name__, e), secs=time.time() - t0)
            return
        except RecursionError:
            if os.environ.get('VFA_DEBUG'):
                raise
            self.und(name, rule, where, 'term too deep', secs=time.time() - t0)
            return
        except Exception as e:
            if os.environ.get('VFA_DEBUG'):
                raise
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.und(name, rule, where, 'analysis gave up: %s: %s (%s:%d)' % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno), secs=time.time() - t0)
            return
        self.account(I)
        an = sorted('%s (%s)' % (f.q, f.where()) for f in I.analysed if not f.file.startswith(SPEC))
        neq = [r for r in res if r[1] == CM.NEQ]
        und = [r for r in res if r[1] == CM.UND]
        if neq:
            self.bad(name, rule, where, '; '.join(r[0] for r in neq[:4]) + '\n   when: %s' % show(neq[0][3])[:800], analysed=an, secs=time.time() - t0)
        elif und:
            self.und(name, rule, where, '; '.join('%s: %s' % (r[0], r[2]) for r in und[:4]), analysed=an, secs=time.time() - t0)
        else:
            self.ok(name, rule, where, '%d accesses in question' % len(fl), analysed=an, secs=time.time() - t0)

    def run_jobs(self):
        """the obligations are independent: decide them in forked workers, merge in order"""
        jobs, self.jobs = self.jobs, []
        nw = min(int(os.environ.get('VFA_JOBS', '0') or 0) or (os.cpu_count() or 1), 8, len(jobs))
        if nw <= 1:
            for f, a in jobs:
                f(*a)
            return
        import pickle
        import select
        import struct
        sys.stdout.flush()
        base = len(self.obs)
        results = {}
        ws = {}
        nxt = 0

        def spawn(i):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    f, a = jobs[i]
                    n0, c0, l0 = len(self.obs), self.callsites, self.loops
                    self.fns = {}
                    f(*a)
                    data = pickle.dumps((self.obs[n0:], sorted(self.fns), self.callsites - c0, self.loops - l0, self.assumptions))
                    sys.stdout.flush()
                    with os.fdopen(w, 'wb') as fh:
                        fh.write(data)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                    sys.stderr.flush()
                finally:
                    os._exit(code)
            os.close(w)
            ws[r] = [pid, i, b'']
        while nxt < len(jobs) or ws:
            while nxt < len(jobs) and len(ws) < nw:
                spawn(nxt)
                nxt += 1
            for r in select.select(list(ws), [], [])[0]:
                d = os.read(r, 1 << 20)
                if d:
                    ws[r][2] += d
                    continue
                os.close(r)
                pid, i, buf = ws.pop(r)
                _p, stt = os.waitpid(pid, 0)
                results[i] = pickle.loads(buf) if stt == 0 and buf else None
        for i in range(len(jobs)):
            res = results[i]
            if res is None:
                self.und(str(jobs[i][1][0]), 'worker', '-', 'the worker deciding this obligation ended early')
                continue
            obs, fns, cs, lp, asm = res
            self.obs += obs
            for k in fns:
                self.fns[k] = self.P.fns[k]
            self.callsites += cs
            self.loops += lp
            for a in asm:
                self.assume(a)

    def interp(self, setup=None):
        TM.reset()
        TM.user_hooks.clear()
        del TM._nonnull_preds[BASE_PREDS:]
        TM._unit_w.clear()
        I = Interp(self.P)
        install_intrinsics(I)
        if setup:
            setup(I)
        return I

    def eval(self, I, fn, consts):
        st = State({})
        args = []
        for p in fn.params:
            t = fn.tu.types[p['t']]
            if p['n'] in consts:
                c = consts[p['n']]
                v = (TRUE if c else FALSE) if isinstance(c, bool) else mk('str', c) if isinstance(c, str) else const(c)
            else:
                v = I.symval(t, mk('app', 'arg:' + p['n']))
            if t['k'] in ('ref', 'rref'):
                l = LOC('arg', p['n'])
                st.env[l] = v
                args.append(ADDR(l))
            else:
                args.append(v)
        I._ref_out = [(p['n'], LOC('arg', p['n']), fn.tu.types[p['t']]) for p in fn.params if fn.tu.types[p['t']]['k'] in ('ref', 'rref')]
        v, st, thr = I.run(fn, None, args, st)
        assumed = [t for t in thr if t.info == 'vf::assume']
        thr = [t for t in thr if t.info != 'vf::assume']
        g = b_not(b_any([t.pc for t in assumed]))
        rt = fn.tu.types[fn.d['rt']] if 'rt' in fn.d else None
        if rt is not None and rt['k'] in ('ref', 'rref') and v.op in ('addr', 'ite'):
            v = I.load(st, v, rt)
        return v, st, thr, g

    def pair1(self, name, fnL, fnR, consts, setup, fixed, types, fixeds, tol, throws=True, vacuous=False, confirm=None):
        t0 = time.time()
        rule = 'same value and same failure condition as the reference' if fnR else 'holds on every path'
        where = fnL.where()
        I = None
        base = re.split(r'[\[{]', name)[0]
        if self.spec_fn('A_' + base):
            # sufficient condition: A_x equals B_x
            try:
                I = self.interp(setup)
                vA, _s, tA, gA = self.eval(I, self.spec_fn('A_' + base), consts)
                target = [f for f in I.analysed if not f.file.startswith(SPEC)]
                vB, _s, tB, gB = self.eval(I, self.spec_fn('B_' + base), consts)
                r2 = CM.compare(b_any([t.pc for t in tA]), b_any([t.pc for t in tB]), gA, self.seed, path='<throws>')
                r2 += CM.compare(vA, vB, b_and(gA, gB), self.seed, path='value')
                if all(r[1] == CM.EQ for r in r2):
                    I.analysed = {f for f in I.analysed if f.file.startswith(SPEC)} | set(target)
                    self.account(I)
                    an = sorted('%s (%s)' % (f.q, f.where()) for f in target)
                    self.ok(name, rule, where, '%d value parts' % len(r2), analysed=an, secs=time.time() - t0)
                    return
            except Exception:
                pass
        try:
            I = self.interp(setup)
            side = 'L'
            vL, sL, tL, gL = self.eval(I, fnL, consts)
            side = 'R'
            target = [f for f in I.analysed if not f.file.startswith(SPEC)]
            if fnR is None:
                vR, tR, gR = TRUE, [], TRUE
            else:
                n0 = set(I.analysed)
                vR, sR, tR, gR = self.eval(I, fnR, consts)
                I.analysed = n0
            g = b_and(gL, gR)
            cL, cR = b_any([t.pc for t in tL]), b_any([t.pc for t in tR])
            res = CM.compare(cL, cR, g, self.seed, fixed=fixed, path='<throws>', trials=self.trials, fixeds=fixeds) if throws else []
            if types:
                for ty in sorted({t.info for t in tL} | {t.info for t in tR}, key=str):
                    res += CM.compare(b_any([t.pc for t in tL if t.info == ty]), b_any([t.pc for t in tR if t.info == ty]),
                                      g, self.seed, fixed=fixed, path='<throws %s>' % ty, trials=self.trials, fixeds=fixeds)
            g2 = b_and(g, b_not(b_or(cL, cR)))
            if g2 is not FALSE and not (vL.op == 'void'):
                res += CM.compare(vL, vR, g2, self.seed, fixed=fixed, path='value', trials=self.trials, fixeds=fixeds, tol=tol)
            if g is FALSE and vacuous:
                self.ok(name, rule, where, 'nothing to require in this case')
                return
            if g is FALSE:
                self.und(name, rule, where, 'assumptions are contradictory')
                return
        except Undefined as e:
            self.account(I)
            an = sorted('%s (%s)' % (f.q, f.where()) for f in I.analysed if not f.file.startswith(SPEC))
            if side == 'L':
                self.bad(name, rule, where, str(e)[4:], analysed=an, secs=time.time() - t0)
            else:
                self.und(name, rule, where, 'reference: ' + str(e)[4:], secs=time.time() - t0)
            return
        except (Unsupported, Blowup) as e:
            self.account(I)
            self.und(name, rule, where, '%s: %s' % (type(e).__name__, e), secs=time.time() - t0)
            return
        except RecursionError:
            if os.environ.get('VFA_DEBUG'):
                raise
            self.und(name, rule, where, 'term too deep', secs=time.time() - t0)
            return
        except Exception as e:
            if os.environ.get('VFA_DEBUG'):
                raise
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.und(name, rule, where, 'analysis gave up: %s: %s (%s:%d)' % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno), secs=time.time() - t0)
            return
        self.account(I)
        an = sorted('%s (%s)' % (f.q, f.where()) for f in target)
        neq = [r for r in res if r[1] == CM.NEQ]
        und = [r for r in res if r[1] == CM.UND]
        secs = time.time() - t0
        if neq and confirm is not None:
            # a difference found with summaries counts only if it is there without them
            return self.pair1(name, fnL, fnR, consts, confirm, fixed, types, fixeds, tol, throws, vacuous)
        if neq:
            d = '; '.join('%s: %s' % (r[0], r[2]) for r in neq[:4])
            if os.environ.get('VFA_SHOW'):
                for r in neq[:2]:
                    d += '\n   L=%s\n   R=%s\n   G=%s' % (show(r[3]), show(r[4]), show(r[5]))
            elif True:
                r = neq[0]
                d += '\n   value found:    %s\n   value required: %s' % (show(r[3])[:1200], show(r[4])[:1200])
            self.bad(name, rule, where, d, analysed=an, secs=secs)
        elif und:
            d = '; '.join('%s: %s' % (r[0], r[2]) for r in und[:4])
            if os.environ.get('VFA_SHOW'):
                for r in und[:2]:
                    d += '\n   L=%s\n   R=%s\n   G=%s' % (show(r[3]), show(r[4]), show(r[5]))
            self.und(name, rule, where, d, analysed=an, secs=secs)
        else:
            self.ok(name, rule, where, '%d value parts' % len(res), analysed=an, secs=secs)

    def account(self, I):
        if I is None:
            return
        self.callsites += I.callsites
        self.loops += I.loops
        for f in I.analysed:
            if not f.file.startswith(SPEC):
                self.fns[f.id] = f

    # ------------------------------------------------------------------ verdict
    def finish(self, min_obligations=1):
        self.run_jobs()
        known, fixed = findings(self.pid)
        bad = [o for o in self.obs if o.status == 'violated']
        und = [o for o in self.obs if o.status == 'undecided']
        unlisted = [o for o in bad if not any(k == o.name for k, _ in known)]
        if len(self.obs) < min_obligations:
            print('analysis broken: %d obligations, at least %d expected' % (len(self.obs), min_obligations))
            sys.exit(2)
        for k, txt in known:
            if any(o.name == k for o in bad):
                print('KNOWN-FINDING: property=%s %s %s' % (self.pid, k, txt))
        for o in und:
            print('UNDECIDED %s %s: %s' % (self.pid, o.name, o.detail.split('\n')[0][:300]))
        dis = sum(1 for o in self.obs if o.status == 'discharged')
        listed = sorted('%s %s' % (f.where(), f.q) for f in self.fns.values()) or sorted({a for o in self.obs for a in o.analysed})
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'other',
            'coverage': {
                'explanation': '%s. %d obligations over %d functions (%d call sites, %d loops) of %s: %d discharged, %d violated, %d undecided.' % (
                    self.technique, len(self.obs), len(listed), self.callsites, self.loops, ', '.join(sorted(self.units)), dis, len(bad), len(und)),
                'obligations': len(self.obs), 'discharged': dis,
                'violated': len(bad), 'undecided': len(und),
                'known_findings_seen': len(bad) - len(unlisted),
                'functions_analysed': len(listed), 'call_sites': self.callsites, 'loops': self.loops,
                'functions': listed[:400],
                'rules': [{'name': o.name, 'rule': o.rule, 'where': o.where, 'status': o.status,
                           'detail': o.detail[:400], 'analysed': len(o.analysed)} for o in self.obs],
            },
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 3),
            'violations': len(unlisted),
        }
        os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        rp = 'evidence/replay/%s.txt' % self.pid
        if unlisted:
            with open(os.path.join(VERIF, rp), 'w') as f:
                f.write('%s %s\nre-run: python3 checks/run.py %s\n\n' % (self.pid, self.title, self.pid))
                for o in unlisted:
                    f.write('%s\n  rule: %s\n  reference/anchor: %s\n  %s\n' % (o.name, o.rule, o.where, o.detail))
                    for a in o.analysed:
                        f.write('    flow through %s\n' % a)
                    f.write('\n')
            for o in unlisted:
                print('violated %s [%s] %s: %s' % (self.pid, o.name, o.where, o.detail[:1500]))
                for a in o.analysed[:12]:
                    print('    flow through %s' % a)
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            sys.exit(1)
        print('%s: %d obligations, %d discharged, %d undecided, %d known; %d functions; %.1fs' % (
            self.pid, len(self.obs), dis, len(und), len(bad), len(listed), time.time() - self.t0))
        sys.exit(0)


def findings(pid):
    """known findings `known: property=<id> obligation=<name> <text>`; `fixed:` lines suppress nothing"""
    known, fixed = [], []
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS):
            l = l.strip()
            if l.startswith('known: property=%s ' % pid):
                w = l.split(' ', 3)
                known.append((w[2].split('=', 1)[1], w[3] if len(w) > 3 else ''))
            elif l.startswith('fixed: property=%s ' % pid):
                fixed.append(l)
    return known, fixed


def install_intrinsics(I):
    def s_assume(self, n, st, fr, ctx):
        MD.throw_if(self, st, ctx, b_not(self.cond(n['args'][0], st, fr, ctx)), 'vf::assume')
        return mk('void')
    def s_unit(self, n, st, fr, ctx):
        a = n['args'][0]
        t = self.deref_type(self.T(fr, a['t']))
        v = self.load(st, self.obj_addr(a, False, st, fr, ctx), t)
        ats = [atom_of(get_field(v, f)) for f in ('x', 'y', 'z', 'w') if any(f == k for k, _ in v.args[1])]
        if any(x is None for x in ats):
            raise Unsupported('vf::unit of a computed value')
        declare_unit(*ats)
        return mk('void')
    def s_any(self, n, st, fr, ctx):
        a = self.rv(n['args'][0], st, fr, ctx)
        while a.op == 'it':
            a = self.load(st, a.args[0])
        if a.op != 'str':
            raise Unsupported('vf::any of a computed name')
        return self.symval(self.T(fr, n['t']), mk('app', 'any:' + a.args[0]))
    I.summaries['vf::any'] = s_any
    I.summaries['vf::assume'] = s_assume
    I.summaries['vf::unit'] = s_unit
