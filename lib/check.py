#!/usr/bin/env python3
"""Decides one property on /repo's working tree.

  check.py ID [--tier quick|thorough] [--replay FILE]

exit 0: held on everything explored; 1: violated (VIOLATION line); 2: no verdict.
"""
import json, os, random, shutil, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core as C
import build as B
import gens
import models as M
import runner as R

EVID = os.path.join(B.VERIF, 'evidence')
API = ('api', 'APITrace.tla', 'APITrace.cfg', C.norm_api)
SCH = ('sched', 'SchedTrace.tla', 'SchedTrace.cfg', C.norm_sched)
SPECS = {'api': API, 'sched': SCH}

# property -> generators of programs (with their share), specifications that judge
# the executions, models checked exhaustively, tours through the abstract state graph
PLAN = {
    'M01': dict(gens=[('m01', 2), ('d_mutex', 1)], tours=['mutex', 'rmutex', 'tmutex', 'rtmutex'], models=['mc-mutex', 'mc-rmutex', 'mc-tmutex', 'mc-rtmutex']),
    'M02': dict(gens=[('m02', 2), ('d_mutex', 1)], tours=['mutex', 'rtmutex'], models=['MWait', 'mc-mutex', 'mc-rtmutex']),
    'M03': dict(gens=[('m03', 2), ('d_mutex', 1)], tours=['tmutex', 'rtmutex'], models=['MWait', 'mc-tmutex', 'mc-rtmutex']),
    'C01': dict(gens=[('c01', 2), ('d_cv', 1)], tours=['cvp', 'cv'], models=['MWait', 'mc-cvp', 'mc-cv']),
    'C02': dict(gens=[('c02', 2), ('d_cv', 1)], tours=['cv', 'cvany'], models=['mc-cv', 'mc-cvany']),
    'B01': dict(gens=[('b01', 2), ('d_bar', 1)], tours=['bar1', 'bar2', 'bar3'], models=['mc-bar1', 'mc-bar2', 'mc-bar3']),
    'Q01': dict(gens=[('q01', 2), ('d_bch', 1)], tours=['bch2', 'bch4'], models=['mc-bch2', 'mc-bch4']),
    'Q02': dict(gens=[('q02', 2), ('d_bch', 1)], tours=['bch2'], models=['mc-bch2']),
    'Q03': dict(gens=[('q03', 2), ('d_bch', 1)], tours=['bch2', 'bch4'], models=['mc-bch2', 'mc-bch4']),
    'U01': dict(gens=[('u01', 2), ('d_uch', 1)], tours=['uch'], models=['MUnbuf', 'mc-uch']),
    'U02': dict(gens=[('u02', 2), ('d_uch', 1)], tours=['uch'], models=['MUnbuf', 'mc-uch']),
    'V01': dict(gens=[('v01', 1)], tours=['bch4', 'uch'], models=['mc-bch4', 'mc-uch']),
    'F01': dict(gens=[('f01', 2), ('d_prom', 1)], tours=['prom'], models=['mc-prom']),
    'F02': dict(gens=[('f02', 2), ('d_fut', 1), ('d_sfut', 1)], tours=['fut'], models=['mc-fut']),
    'F03': dict(gens=[('f03', 2), ('d_pt', 1)], tours=['task', 'async'], models=['mc-task', 'mc-async']),
    'F04': dict(gens=[('f04', 2), ('d_sfut', 1)], tours=['sfut'], models=['mc-sfut']),
    'L01': dict(gens=[('l01', 2), ('d_life', 1)], tours=['life'], models=['mc-life']),
    'L02': dict(gens=[('l02', 2), ('d_life', 1)], tours=['life'], models=['mc-life']),
    'S01': dict(gens=[('s01', 1)], specs=['sched', 'api'], models=['MWait']),
    'S02': dict(gens=[('s02', 2), ('d_any', 1)], models=['MWait']),
    'S03': dict(gens=[('s03', 1)], tours=['sleep'], models=['MWait', 'mc-sleep']),
    'A01': dict(gens=[('a01', 1)], specs=['sched', 'api']),
    'A02': dict(gens=[('a02', 1)], specs=['sched', 'api']),
    'A03': dict(gens=[('a03', 1), ('a03q', 1)], specs=['sched', 'api'], models=['MSpmc']),
    'P01': dict(gens=[('p01', 1)], tours=['fss'], models=['mc-fss']),
    'P02': dict(gens=[('p02', 1)], specs=['sched', 'api']),
    'T01': dict(gens=[('t01', 1)], models=['MFutex']),
}
BUDGET = {'quick': (9000, 3000, 60), 'thorough': (400000, 6000, 780)}   # executions, per round, seconds


def known_findings(prop):
    out = []
    p = os.path.join(B.VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding: property=%s ' % prop):
                out.append(line[len('finding: '):])
    return out


class Violation(Exception):
    def __init__(self, path, what):
        self.path, self.what = path, what


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.st, self.samples, self.models, self.byspec = {}, [], [], {}
        self.violations = 0
        self.unconfirmed = 0

    def judge(self, spec, sc, rec, wd, diag=True):
        """None when the execution is a behaviour of the specification, else the position where it stops being one"""
        name, tla, cfg, norm = SPECS[spec]
        it = norm(rec, sc.meta())
        it['id'] = 1
        acc, g, d = C.tlc_traces([it], tla, cfg, wd, procs=1, env={'DIAG': '1'} if diag else None)
        return None if acc else (C.tlc_traces.at.get(1, 1), it['ev'])

    def confirm(self, spec, sc, drv, wd):
        """runs a rejected execution again, alone"""
        for _ in range(3):
            recs = C.run_driver(drv, [sc], wd, shards=1)
            r = self.judge(spec, sc, recs[1], wd)
            if r is not None:
                return r, recs[1]
        return None

    def report(self, spec, sc, r, rec):
        at, ev = r
        os.makedirs(os.path.join(EVID, 'replays'), exist_ok=True)
        rel = 'evidence/replays/%s-%s-%d.json' % (self.prop, self.tier, self.seed)
        with open(os.path.join(B.VERIF, rel), 'w') as fh:
            json.dump(dict(property=self.prop, spec=spec, scenario=sc.text(), threads=sc.threads, algos=sc.algos, objs=sc.objs,
                           fibers=sc.fibers, script=sc.script, cfg=sc.cfg, rejected_at=at, rejected_event=ev[at - 1] if at <= len(ev) else None,
                           before=ev[max(0, at - 40):at - 1], events=ev), fh, indent=1)
        raise Violation(rel, 'the execution is no behaviour of %s from event %d on: %s' % (SPECS[spec][1], at, json.dumps(ev[at - 1] if at <= len(ev) else None)))

    def round(self, scs, drv, wd, specs):
        t = time.time()
        recs = C.run_driver(drv, scs, wd)
        scs = [s for s in scs if s.id in recs]      # a driver gives up early when many executions crash
        self.st['t_drv'] = self.st.get('t_drv', 0) + time.time() - t
        for r in recs.values():
            if r['ovf']:
                r['ev'].append(['x', 'overflow', 0])
        n = len(scs)
        st = dict(executions=n, preemptions=sum(r['pre'] for r in recs.values()), switches=sum(r['sw'] for r in recs.values()),
                  steps=sum(r['steps'] for r in recs.values()), timejumps=sum(r['tj'] for r in recs.values()),
                  blocked_forever=sum(1 for r in recs.values() if r['fin'] == 2),
                  schedules=len(set(r['dig'] for r in recs.values())))
        R.merge(self.st, st)
        for spec in specs:
            name, tla, cfg, norm = SPECS[spec]
            if spec == 'sched' and not any(s.cfg['sched'] for s in scs):
                continue
            part = [s for s in scs if spec != 'sched' or s.cfg['sched']]
            items = [norm(recs[s.id], s.meta()) for s in part]
            it, rep = C.dedupe(items)
            t = time.time()
            acc, g, d = C.tlc_traces(it, tla, cfg, wd)
            z = self.byspec.setdefault(tla, dict(traces=0, distinct=0, events=0, states=0, transitions=0, longest=0))
            R.merge(z, dict(traces=len(items), distinct=len(it), events=sum(len(x['ev']) for x in items), states=d, transitions=g,
                            longest=max(len(x['ev']) for x in items)))
            self.st['t_tlc'] = self.st.get('t_tlc', 0) + time.time() - t
            rej = [x for x in it if x['id'] not in acc]
            if not self.samples:
                s = part[0]
                self.samples.append(dict(scenario=s.text(), events=items[0]['ev'][:60]))
            if rej:
                rej.sort(key=lambda x: len(x['ev']))
                byid = {s.id: s for s in part}
                for x in rej[:6]:
                    sc = byid[x['id']]
                    c = self.confirm(spec, sc, drv, wd)
                    if c:
                        self.violations = len(rej)
                        self.report(spec, sc, *c)
                    self.unconfirmed += 1

    def run(self):
        plan = PLAN[self.prop]
        total, per, secs = BUDGET[self.tier]
        total, per, secs = [int(os.environ.get(k, v)) for k, v in zip(('VERIF_N', 'VERIF_PER', 'VERIF_SECS'), (total, per, secs))]
        specs = plan.get('specs', ['api'])
        wd = C.workdir(self.prop)
        try:
            drv = B.build()
            self.t_build = time.time() - self.t0
            # 1. the models of the mechanisms
            for m in plan.get('models', []):
                self.models += M.run(m, self.tier, wd)
            # 2. behaviours of the specification, replayed into the library
            rng = random.Random('%s-%d' % (self.prop, self.seed))
            for tour in plan.get('tours', []):
                scs, info = M.tour(tour, self.tier, rng, wd, len(plan['tours']))
                self.st.setdefault('tours', []).append(info)
                for k in range(0, len(scs), 6000):
                    self.round(scs[k:k + 6000], drv, wd, specs)
            # 3. executions of the library, judged by the specification
            g = plan['gens']
            names = [n for n, w in g for _ in range(w)]
            t1, done = time.time(), 0
            while done < total and time.time() - t1 < secs:
                scs = [gens.tighten(getattr(gens, names[k % len(names)])(rng), rng) for k in range(min(per, total - done))]
                self.round(scs, drv, wd, specs)
                done += len(scs)
            if self.unconfirmed:
                raise RuntimeError('%d rejections were not repeatable' % self.unconfirmed)
        finally:
            shutil.rmtree(wd, ignore_errors=True)

    def evidence(self, extra=None):
        os.makedirs(EVID, exist_ok=True)
        tr = sum(z['traces'] for z in self.byspec.values())
        cov = dict(states=sum(z['states'] for z in self.byspec.values()) + sum(m['distinct'] for m in self.models),
                   transitions=sum(z['transitions'] for z in self.byspec.values()) + sum(m['generated'] for m in self.models),
                   traces_validated_against_impl=sum(z['distinct'] for z in self.byspec.values()),
                   samples=self.samples[:2], executions=self.st.get('executions', 0), distinct_schedules=self.st.get('schedules', 0),
                   thread_switches=self.st.get('switches', 0), preemptions=self.st.get('preemptions', 0), instrumented_steps=self.st.get('steps', 0),
                   time_jumps=self.st.get('timejumps', 0), executions_ending_blocked=self.st.get('blocked_forever', 0),
                   by_specification=self.byspec, models=self.models, tours=self.st.get('tours', []),
                   generators=[n for n, w in PLAN[self.prop]['gens']])
        e = dict(property=self.prop, tier=self.tier, seed=self.seed, level='model_checking', coverage=cov,
                 assumptions=['x86-64, gcc, sequentially consistent interleavings of the instrumented accesses; weaker orders are judged by the vector clocks of the runtime',
                              'Boost.Context, libstdc++ and the replaced pthread, futex and clock calls behave as specified',
                              'threads whose fibers migrate outlive all fibers'],
                 wall_s=round(time.time() - self.t0, 2), violations=self.violations)
        with open(os.path.join(EVID, self.prop + '.json'), 'w') as fh:
            json.dump(e, fh, indent=1)


def replay(path):
    d = json.load(open(path))
    sc = C.Sc(d['threads'], d['algos'])
    sc.objs = [tuple(o) for o in d['objs']]
    sc.fibers = [[tuple(op) for op in f] for f in d['fibers']]
    sc.script, sc.cfg = d['script'], d['cfg']
    wd = C.workdir('replay')
    try:
        c = Check(d['property'], 'quick', 0).confirm(d['spec'], sc, B.build(), wd)
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    if not c:
        print('accepted')
        return 0
    (at, ev), rec = c
    for k, e in enumerate(ev[:at + 3]):
        print('>>' if k == at - 1 else '  ', json.dumps(e))
    print('VIOLATION property=%s replay=%s' % (d['property'], path))
    return 1


def main():
    a = sys.argv[1:]
    if a and a[0] == '--replay':
        return replay(a[1])
    prop = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    c = Check(prop, tier, seed)
    try:
        c.run()
    except Violation as v:
        c.evidence()
        print(v.what)
        print('VIOLATION property=%s replay=%s' % (prop, v.path))
        return 1
    except Exception:
        traceback.print_exc()
        return 2
    c.evidence()
    for k in known_findings(prop):
        print('KNOWN-FINDING: ' + k)
    print('%s %s: %d executions, %d states, %.1f s' % (prop, tier, c.st.get('executions', 0), sum(z['states'] for z in c.byspec.values()), time.time() - c.t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
