"""Runs one property's check."""
import json, os, random, sys, time, hashlib, shutil, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core as C
import build as B


def explore(prop, gen, n, rng, drv, wd, spec='APITrace.tla', cfg='APITrace.cfg', norm=None, env=None, procs=None):
    """n executions; returns dict of statistics and the rejected ones"""
    norm = norm or C.norm_api
    scs = []
    while len(scs) < n:
        s = gen(rng)
        scs.append(s)
    t0 = time.time()
    recs = C.run_driver(drv, scs, wd)
    t1 = time.time()
    items = [norm(recs[s.id], s.meta()) for s in scs]
    bad = [r for r in recs.values() if r['ovf']]
    if bad:
        raise RuntimeError('event buffer overflow')
    it, rep = C.dedupe(items)
    acc, gen_, dist = C.tlc_traces(it, spec, cfg, wd, env=env, procs=procs)
    rej = [t for t in it if t['id'] not in acc]
    st = dict(executions=len(scs), distinct=len(it), events=sum(len(t['ev']) for t in items), states=dist, transitions=gen_,
              preemptions=sum(r['pre'] for r in recs.values()), switches=sum(r['sw'] for r in recs.values()),
              steps=sum(r['steps'] for r in recs.values()), timejumps=sum(r['tj'] for r in recs.values()),
              stuck=sum(1 for r in recs.values() if r['fin'] == 2), faults=sum(1 for r in recs.values() if r['fin'] >= 3),
              schedules=len(set(r['dig'] for r in recs.values())), t_drv=t1 - t0, t_tlc=time.time() - t1,
              longest=max(len(t['ev']) for t in items))
    return st, scs, items, rej


def merge(a, b):
    for k, v in b.items():
        a[k] = max(a.get(k, 0), v) if k == 'longest' else a.get(k, 0) + v
    return a


if __name__ == '__main__':
    import gens
    name, n = sys.argv[1], int(sys.argv[2])
    seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
    show = int(sys.argv[4]) if len(sys.argv) > 4 else 2
    drv = B.build()
    wd = C.workdir(name)
    rng = random.Random(seed)
    sched = os.environ.get('SPEC') == 'sched'
    SP, CF = ('SchedTrace.tla', 'SchedTrace.cfg') if sched else ('APITrace.tla', 'APITrace.cfg')
    st, scs, items, rej = explore(name, getattr(gens, name), n, rng, drv, wd, SP, CF, norm=C.norm_sched if sched else None)
    print({k: round(v, 2) for k, v in st.items()})
    print('rejected', len(rej))
    kinds = {}
    rej.sort(key=lambda t: len(t['ev']))
    if rej and show:
        acc, g, d = C.tlc_traces(rej[:40], SP, CF, wd, env={'DIAG': '1'})
        for t in rej[:40]:
            at = C.tlc_traces.at.get(t['id'], 0)
            e = t['ev'][at - 1]
            t['at'] = at
            # last pending op of that fiber
            key = json.dumps(e[:1] + ([e[2]] if e[0] in ('r', ) else e[1:2] if e[0] == 'x' else []))
            if e[0] == 'r':
                pend = [x for x in t['ev'][:at - 1] if x[0] == 'c' and x[1] == e[1]]
                key += ' ' + str(pend[-1][2] if pend else '?')
            kinds.setdefault(key, []).append(t)
        for k, l in kinds.items():
            print('====', k, len(l))
            for t in l[:show]:
                print(scs[t['id'] - 1].text())
                print('O', t['o'])
                for j, e in enumerate(t['ev']):
                    if j >= t['at'] - 60:
                        print('   ', '>>' if j == t['at'] - 1 else '  ', json.dumps(e))
                    if j > t['at'] + 2:
                        break
    shutil.rmtree(wd)
