"""Scenarios -> executions of the real library -> validation against the specification."""
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import build as B

VERIF = B.VERIF
SPEC = os.path.join(VERIF, 'spec')
CORES = int(os.environ.get('VERIF_CORES', '8'))
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class Sc:
    """one scenario: objects, fibers, schedule parameters"""
    def __init__(self, threads=1, algos=None):
        self.threads = threads
        self.algos = algos or ['rr'] * threads
        self.objs = []
        self.fibers = [[] for _ in range(threads)]
        self.script = []
        self.cfg = dict(seed=1, strategy=0, p_sync=0.1, p_plain=0.0, p_time=0.0, p_spur=0.0, depth=3, plen=2000, tick=200, sched=0)
        self.id = 0

    def obj(self, kind, a=0, b=0):
        self.objs.append((kind, a, b))
        return len(self.objs)

    def fiber(self):
        self.fibers.append([])
        return len(self.fibers)

    def op(self, f, name, o=0, a=0, b=0):
        self.fibers[f - 1].append((name, o, a, b))

    def text(self):
        L = ['S %d %d' % (self.id, self.threads), 'A ' + ' '.join(self.algos)]
        for o in self.objs:
            L.append('O %s %d %d' % o)
        for f in self.fibers:
            L.append('F ' + ' ; '.join('%s %d %d %d' % op for op in f))
        if self.script:
            L.append('Q ' + ' '.join(map(str, self.script)))
        c = self.cfg
        L.append('C %d %d %g %g %g %g %d %d %d %d' % (c['seed'], c['strategy'], c['p_sync'], c['p_plain'], c['p_time'],
                                                     c['p_spur'], c['depth'], c['plen'], c['tick'], c['sched']))
        L.append('E')
        return '\n'.join(L) + '\n'

    def migrates(self):
        return 1 if any(a.startswith(('sw', 'ws')) for a in self.algos) else 0

    def meta(self):
        return dict(n=len(self.fibers), t=self.threads, m=self.migrates(), o=[list(o) for o in self.objs], al=list(self.algos))


def schedule(sc, rng, timed=False, mt=None):
    """random schedule parameters"""
    c = sc.cfg
    c['seed'] = rng.randrange(1, 1 << 60)
    c['strategy'] = rng.choice([0, 0, 0, 1, 1, 2]) if (mt if mt is not None else sc.threads > 1) else rng.choice([0, 2])
    c['p_sync'] = rng.choice([0.02, 0.05, 0.1, 0.2, 0.4])
    c['p_plain'] = rng.choice([0, 0, 0, 0.02, 0.1])
    c['p_time'] = rng.choice([0, 0.005, 0.02, 0.1]) if timed else 0
    c['p_spur'] = rng.choice([0, 0, 0.02])
    c['depth'] = rng.choice([2, 3, 4, 6])
    c['plen'] = rng.choice([300, 1000, 3000])
    c['tick'] = rng.choice([0, 50, 200, 1000])


def workdir(name):
    d = os.path.join(VERIF, 'build', 'run-%s-%d' % (name, os.getpid()))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def run_driver(drv, scs, wd, shards=None, timeout=600):
    """runs the scenarios; returns the records of all executions (dict id -> record)"""
    shards = shards or min(CORES, max(1, len(scs) // 20))
    for k, sc in enumerate(scs):
        sc.id = k + 1
    jobs = []
    for h in range(shards):
        part = scs[h::shards]
        if not part:
            continue
        fi, fo = os.path.join(wd, 's%d.sc' % h), os.path.join(wd, 's%d.out' % h)
        with open(fi, 'w') as fh:
            for sc in part:
                fh.write(sc.text())
        jobs.append((fi, fo, len(part)))

    def one(j):
        p = subprocess.run([os.path.join(drv, 'drv'), j[0], j[1]], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=timeout)
        if p.returncode:
            raise RuntimeError('driver failed: %d %s' % (p.returncode, p.stderr[-500:]))
    with ThreadPoolExecutor(len(jobs)) as ex:
        list(ex.map(one, jobs))
    recs = {}
    for fi, fo, n in jobs:
        k = 0
        with open(fo) as fh:
            for line in fh:
                r = json.loads(line)
                recs[r['id']] = r
                k += 1
        if k != n and sum(1 for r in recs.values() if r['fin'] >= 3) == 0:
            raise RuntimeError('driver lost executions: %d of %d' % (k, n))
        os.remove(fo)
        os.remove(fi)
    return recs


SCHED = {'aw', 'ae', 'pb', 'pk', 'su', 'sx', 'awp', 'pch', 'sa', 'sz', 'lv'}


def tlc(spec, cfg, wd, env=None, workers=1, extra=(), heap='3g', timeout=840, tag='tlc'):
    """runs TLC; returns (returncode, output)"""
    meta = os.path.join(wd, 'meta-' + tag)
    shutil.rmtree(meta, ignore_errors=True)
    e = dict(os.environ)
    e.update(env or {})
    dfs = ['-Dtlc2.tool.queue.IStateQueue=StateDeque'] if env and 'TRACE' in env else []
    cmd = ['java'] + dfs + ['-Xmx' + heap, '-Xss16m', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=%d' % max(1, min(4, workers)),
           '-cp', JARS, 'tlc2.TLC', '-config', cfg, '-metadir', meta, '-workers', str(workers), '-noGenerateSpecTE'] + list(extra) + [spec]
    p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout


class TlcError(Exception):
    pass


def stats(out):
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    if m:
        return int(m[-1][0]), int(m[-1][1])
    return 0, 0


def norm_api(rec, meta):
    ev = [e for e in rec['ev'] if e[0] not in SCHED]
    return dict(id=rec['id'], ev=ev, **meta)


def norm_sched(rec, meta):
    # events of the release of fiber specific values and faults are judged by the other specification
    ev, nulls, k = [], {}, 0
    src = [e for e in rec['ev'] if e[0] not in ('fcl', 'sx', 'idle')]
    # an idle thread asks its algorithm again and again: two times suffice
    drop = set()
    last = {}
    for j, e in enumerate(src):
        if e[0] == 'pb':
            last[e[1]] = j
        elif e[0] == 'pk' and e[2] == 0:
            nulls[e[1]] = nulls.get(e[1], 0) + 1
            if nulls[e[1]] > 2:
                drop.add(j)
                if e[1] in last:
                    drop.add(last[e[1]])
        elif e[0] == 'su' and nulls.get(e[1], 0) > 2:
            drop.add(j)
        elif e[0] in ('aw', 'pk'):
            nulls[e[1]] = 0
    ev = [e for j, e in enumerate(src) if j not in drop]
    return dict(id=rec['id'], ev=ev, **meta)


def tlc_traces(items, spec, cfg, wd, procs=None, env=None):
    """items: list of trace dicts with unique 'id'. Returns (accepted ids, states, distinct)."""
    if not items:
        return set(), 0, 0
    procs = procs or max(1, min(CORES, len(items) // 60))
    # balance by size
    order = sorted(items, key=lambda t: -len(t['ev']))
    parts = [order[k::procs] for k in range(procs)]

    def one(k):
        fn = os.path.join(wd, 't%s-%d.json' % (cfg.replace('.cfg', ''), k))
        with open(fn, 'w') as fh:
            for t in parts[k]:
                fh.write(json.dumps(t) + '\n')
        e = {'TRACE': fn}
        e.update(env or {})
        rc, out = tlc(spec, cfg, wd, env=e, workers=1, tag='%s-%d' % (cfg, k))
        os.remove(fn)
        if rc != 0 or 'Model checking completed. No error' not in out:
            raise TlcError(out[-4000:])
        acc = set(int(x) for x in re.findall(r'<<"ACC", (\d+)>>', out))
        at = {}
        for a, b in re.findall(r'<<"AT", (\d+), (\d+)>>', out):
            at[int(a)] = max(at.get(int(a), 0), int(b))
        return acc, at, stats(out)
    acc, gen, dist, at = set(), 0, 0, {}
    with ThreadPoolExecutor(procs) as ex:
        for a, t, (g, d) in ex.map(one, range(procs)):
            acc |= a
            at.update(t)
            gen += g
            dist += d
    tlc_traces.at = at
    return acc, gen, dist


def dedupe(items):
    seen, out, rep = {}, [], {}
    for t in items:
        h = hashlib.sha1(json.dumps([t['o'], t['t'], t['m'], t['n'], t['ev']]).encode()).digest() if 'o' in t else hashlib.sha1(json.dumps(t['ev']).encode()).digest()
        if h in seen:
            rep[t['id']] = seen[h]
            continue
        seen[h] = t['id']
        out.append(t)
    return out, rep
