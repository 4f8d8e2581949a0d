"""Scenario generators, one per property.  gen(rng) -> Sc"""
import core as C

DT = [0, 1, 2, 5, 10, 20, 40, 80]


def topo(rng, maxt=3, migr=True, algos=None, one=0.35):
    """threads and their scheduling algorithms"""
    if rng.random() < one:
        T = 1
    else:
        T = rng.choice([2, 2, 2, 3][:maxt + 1] if maxt >= 3 else [2])
    kinds = algos or (['rr', 'rr', 'chaos', 'mix', 'def'] + (['sw', 'ws', 'wsn', 'swn'] if migr else []))
    k = rng.choice(kinds)
    if k in ('ws', 'wsn') and T == 1 and not (algos and 'ws1' in algos):
        k = 'rr'
    if k == 'mix':
        al = [rng.choice(['rr', 'chaos', 'def']) for _ in range(T)]
    else:
        al = [k] * T
    return C.Sc(T, al)


def workers(sc, rng, n, spread=True, pol=None):
    """n fibers, each launched by one of the main fibers at its start; returns their ids"""
    ws = []
    sc.owner = getattr(sc, 'owner', {})
    for _ in range(n):
        g = sc.fiber()
        t = rng.randrange(sc.threads) if spread else 0
        sc.op(t + 1, 'fork', g, rng.randrange(2) if pol is None else pol)
        sc.owner[g] = t + 1
        ws.append(g)
    return ws


def finish(sc, rng, detach=0.15, skip=()):
    """every launched fiber is joined or detached by its launcher"""
    own = list(sc.owner.items())
    rng.shuffle(own)
    for g, f in own:
        if g in skip:
            continue
        sc.op(f, 'detach' if rng.random() < detach else 'join', g)


def noise(sc, rng, f, p=0.3):
    if rng.random() < p:
        sc.op(f, *rng.choice([('yield',), ('yield',), ('work', rng.choice([1, 3])), ('pass', rng.choice([1, 7]))]))


def base(rng, nmax=4, timed=False, **kw):
    sc = topo(rng, **kw)
    workers(sc, rng, rng.randint(1 if sc.threads > 1 else 2, nmax - (sc.threads - 1)))
    C.schedule(sc, rng, timed=timed)
    return sc


def fibers(sc):
    return range(1, len(sc.fibers) + 1)


# ---------------------------------------------------------------- mutexes
def m01(rng):
    sc = base(rng)
    ms = [sc.obj(rng.choice(['mutex', 'rmutex', 'tmutex', 'rtmutex'])) for _ in range(rng.choice([1, 1, 1, 2]))]
    vs = [sc.obj('var') for _ in ms]
    for f in fibers(sc):
        for _ in range(rng.choice([1, 1, 2, 3])):
            j = rng.randrange(len(ms))
            m, v = ms[j], vs[j]
            rec = sc.objs[m - 1][0].startswith('r')
            r = rng.random()
            if r < 0.12:
                sc.op(f, 'unlock', m)       # not the owner
                continue
            acq = rng.choice(['lock', 'lock', 'lock', 'trylock'] + (['tlock'] if 't' in sc.objs[m - 1][0][:2] else []))
            sc.op(f, acq, m, 1000000 if acq == 'tlock' else 0, 0)
            noise(sc, rng, f, 0.2)
            lv = 1
            if rec and rng.random() < 0.5:
                for _ in range(rng.choice([1, 2])):
                    a2 = rng.choice(['lock', 'trylock'] + (['tlock'] if 't' in sc.objs[m - 1][0][:2] else []))
                    sc.op(f, a2, m, rng.choice([-1, 5, 1000000]) if a2 == 'tlock' else 0, rng.randrange(3) if a2 == 'tlock' else 0)
                    lv += 1
            elif not rec and rng.random() < 0.15 and acq == 'lock':
                sc.op(f, rng.choice(['lock', 'trylock']), m)   # deadlock detection
            sc.op(f, 'inc', v, m)
            noise(sc, rng, f)
            if rng.random() < 0.3:
                sc.op(f, 'inc', v, m)
            for _ in range(lv):
                sc.op(f, 'cunlock', m)
                if rec:
                    sc.op(f, 'get', v, m)
                    noise(sc, rng, f, 0.15)
            if acq == 'tlock' or rec:
                for _ in range(2):
                    sc.op(f, 'cunlock', m)
    finish(sc, rng)
    return sc


def m02(rng):
    timed = rng.random() < 0.4
    sc = base(rng, timed=timed, nmax=5)
    k = rng.choice(['tmutex', 'rtmutex']) if timed else rng.choice(['mutex', 'rmutex', 'tmutex', 'rtmutex'])
    m = sc.obj(k)
    v = sc.obj('var')
    for f in fibers(sc):
        for _ in range(rng.choice([1, 1, 2])):
            if timed and rng.random() < 0.5:
                sc.op(f, 'tlock', m, rng.choice(DT), rng.randrange(3))
            else:
                sc.op(f, 'lock', m)
            sc.op(f, 'inc', v, m)
            if timed and rng.random() < 0.4:
                sc.op(f, rng.choice(['pass', 'sleep']), rng.choice(DT))
            noise(sc, rng, f)
            sc.op(f, 'cunlock', m)
    finish(sc, rng)
    return sc


def m03(rng):
    sc = base(rng, timed=True)
    k = rng.choice(['tmutex', 'rtmutex'])
    m = sc.obj(k)
    v = sc.obj('var')
    for f in fibers(sc):
        for _ in range(rng.choice([1, 2, 2])):
            r = rng.random()
            if r < 0.7:
                sc.op(f, 'tlock', m, rng.choice(DT + [-1, -5, 0]), rng.randrange(3))
                if k == 'rtmutex' and rng.random() < 0.3:
                    sc.op(f, 'tlock', m, rng.choice(DT + [-3]), rng.randrange(3))
            else:
                sc.op(f, 'lock', m)
            sc.op(f, 'inc', v, m)
            if rng.random() < 0.5:
                sc.op(f, rng.choice(['pass', 'sleep', 'yield']), rng.choice(DT))
            sc.op(f, 'cunlock', m)
            sc.op(f, 'cunlock', m)
            noise(sc, rng, f)
    finish(sc, rng)
    return sc


# ---------------------------------------------------------------- condition variables
def cvs(rng, waits, timed):
    sc = base(rng, timed=timed, nmax=5)
    std = rng.random() < 0.5
    m = sc.obj('mutex' if std else rng.choice(['mutex', 'rmutex', 'tmutex', 'rtmutex']))
    v = sc.obj('var')
    c = sc.obj('cv' if std else 'cvany')
    fs = list(fibers(sc))
    nw = 0
    for f in fs:
        for _ in range(rng.choice([1, 1, 2])):
            if rng.random() < 0.55:
                w = rng.choice(waits)
                nw += 1
                sc.op(f, 'lock', m)
                if w == 'wait':
                    sc.op(f, 'wait', c, m)
                elif w == 'waitu':
                    sc.op(f, 'waitu', c, m, rng.choice(DT))
                elif w == 'waitp':
                    sc.op(f, 'waitp', c, m, v)
                else:
                    sc.op(f, 'waitpu', c, m, v * 1000 + rng.choice(DT))
                sc.op(f, 'inc', v, m) if rng.random() < 0.3 else None
                sc.op(f, 'get', v, m) if rng.random() < 0.3 else None
                noise(sc, rng, f, 0.2)
                sc.op(f, 'cunlock', m)
            else:
                inside = rng.random()
                noise(sc, rng, f, 0.3)
                if timed and rng.random() < 0.4:
                    sc.op(f, rng.choice(['pass', 'sleep']), rng.choice(DT))
                n = rng.choice(['n1', 'n1', 'na'])
                if inside < 0.7:
                    sc.op(f, 'lock', m)
                    if rng.random() < 0.7:
                        sc.op(f, 'set', v, m, rng.choice([1, 1, 1, 0]))
                    if inside < 0.35:
                        sc.op(f, n, c)
                    sc.op(f, 'cunlock', m)
                if inside >= 0.35:
                    sc.op(f, n, c)
    finish(sc, rng)
    return sc


def c01(rng):
    return cvs(rng, rng.choice([['wait'], ['wait', 'waitp'], ['wait', 'waitu', 'waitp']]), rng.random() < 0.3)


def c02(rng):
    return cvs(rng, ['wait', 'waitu', 'waitu', 'waitp', 'waitpu', 'waitpu'], True)


# ---------------------------------------------------------------- barrier
def b01(rng):
    sc = topo(rng)
    n = rng.choice([1, 2, 2, 3, 3, 4])
    extra = rng.choice([0, 0, 0, 1, 1, 2]) if 1 < n < 4 else 0    # more fibers than the barrier counts
    ws = workers(sc, rng, n + extra)
    b = sc.obj('barrier', n)
    if rng.random() < 0.1:
        sc.op(1, 'made', b, rng.randrange(3))
    rounds = rng.choice([1, 2, 3, 4])
    exact = not extra and rng.random() < 0.8
    for w in ws:
        for _ in range(rounds if exact else rng.choice([1, 2, 3])):
            noise(sc, rng, w, 0.3)
            sc.op(w, 'bwait', b, 1 if exact else 0, sum(1 << x for x in ws))
    C.schedule(sc, rng)
    finish(sc, rng)
    return sc


# ---------------------------------------------------------------- channels
def chan_ops(sc, rng, f, c, kinds, nval, val, timed):
    for _ in range(nval):
        k = rng.choice(kinds)
        if k in ('push', 'trypush'):
            sc.op(f, k, c, val(), rng.randrange(2))
        elif k == 'pushu':
            sc.op(f, k, c, val(), 2 * rng.choice(DT) + rng.randrange(2))
        elif k == 'popu':
            sc.op(f, k, c, rng.choice(DT + [-2]))
        elif k == 'iter':
            sc.op(f, k, c, rng.choice([1, 2, 3]), rng.randrange(2))
        else:
            sc.op(f, k, c)
        if timed and rng.random() < 0.25:
            sc.op(f, rng.choice(['pass', 'sleep']), rng.choice(DT))
        noise(sc, rng, f, 0.2)


class Vals:
    def __init__(self):
        self.n = 0

    def __call__(self):
        self.n += 1
        return self.n


def chans(rng, kind, timed, close, pushes, pops, both=0.2, nmax=5, nv=(1, 2, 3), iters=0.1):
    sc = base(rng, timed=timed, nmax=nmax)
    c = sc.obj(kind, rng.choice([2, 2, 2, 4, 4, 8]) if kind == 'bch' else 0)
    if kind == 'bch' and rng.random() < 0.02:
        c2 = sc.obj('bch', rng.choice([0, 1, 3, 5, 6, 7, 12]))
        sc.op(1, 'made', c2)
    val = Vals()
    fs = list(fibers(sc))
    rng.shuffle(fs)
    for k, f in enumerate(fs):
        r = rng.random()
        if r < both:
            kinds = pushes + pops
        elif k % 2 == 0:
            kinds = pushes
        else:
            kinds = pops
        chan_ops(sc, rng, f, c, kinds, rng.choice(nv), val, timed)
    if close:
        f = rng.choice(fs)
        p = sc.fibers[f - 1]
        pos = rng.randint(0, len(p))
        # not before the launches
        first = max([i for i, o in enumerate(p) if o[0] == 'fork'] + [-1]) + 1
        p.insert(max(pos, first), ('close', c, 0, 0))
        if rng.random() < 0.3:
            sc.op(rng.choice(fs), 'close', c)
        if rng.random() < 0.4:
            sc.op(rng.choice(fs), 'closed', c)
        if rng.random() < 0.6:
            # the values which are left can be drained
            g = rng.choice(fs)
            sc.op(g, 'close', c)
            sc.op(g, 'iter', c, 0, rng.randrange(2))
    finish(sc, rng, detach=0.1)
    return sc


def q01(rng):
    t = rng.random() < 0.3
    return chans(rng, 'bch', t, rng.random() < 0.3, ['push', 'push', 'trypush'] + (['pushu'] if t else []),
                 ['pop', 'pop', 'vpop', 'trypop'] + (['popu'] if t else []), nv=(1, 2, 3, 4))


def q02(rng):
    t = rng.random() < 0.3
    return chans(rng, 'bch', t, True, ['push', 'push', 'trypush'] + (['pushu'] if t else []),
                 ['pop', 'vpop', 'trypop', 'iter'] + (['popu'] if t else []))


def q03(rng):
    t = rng.random() < 0.7
    return chans(rng, 'bch', t, False, ['push'] + (['pushu'] if t else []), ['pop', 'vpop'] + (['popu'] if t else []), nmax=6)


def u01(rng):
    t = rng.random() < 0.5
    return chans(rng, 'uch', t, rng.random() < 0.3, ['push'] + (['pushu'] if t else []), ['pop', 'vpop'] + (['popu'] if t else []))


def u02(rng):
    t = rng.random() < 0.5
    return chans(rng, 'uch', t, rng.random() < 0.7, ['push'] + (['pushu'] if t else []),
                 ['pop', 'vpop', 'iter'] + (['popu'] if t else []), nmax=6)


def v01(rng):
    kind = rng.choice(['bch', 'bch', 'uch'])
    sc = base(rng, nmax=4)
    c = sc.obj(kind, rng.choice([2, 4, 8]))
    val = Vals()
    fs = list(fibers(sc))
    rng.shuffle(fs)
    nprod = rng.choice([1, 1, 2])
    for f in fs[:nprod]:
        for _ in range(rng.choice([1, 2, 3, 4])):
            sc.op(f, rng.choice(['push', 'push', 'trypush'] if kind == 'bch' else ['push']), c, val(), rng.randrange(2))
            noise(sc, rng, f, 0.2)
        if rng.random() < 0.8:
            sc.op(f, 'close', c)
    for f in fs[nprod:]:
        sc.op(f, 'iter', c, rng.choice([0, 0, 1, 2]), rng.randrange(2))
        if rng.random() < 0.3:
            sc.op(f, rng.choice(['pop', 'vpop']), c)
    if rng.random() < 0.7:
        sc.op(fs[0], 'close', c)
    finish(sc, rng, detach=0.1)
    return sc


# ---------------------------------------------------------------- futures
def futs(rng, timed, shared, tasks):
    sc = base(rng, timed=timed, nmax=5)
    fs = list(fibers(sc))
    val = Vals()
    for _ in range(rng.choice([1, 1, 2])):
        T = rng.choice([0, 0, 1, 2])
        own = rng.choice(fs)            # the provider's side
        usr = rng.choice([f for f in fs])       # the consumer's side
        task = tasks and rng.random() < 0.8
        p = sc.obj('pt' if task else 'prom', T)
        fu = sc.obj('fut', T)
        p2 = sc.obj('pt' if task else 'prom', T)
        f2 = sc.obj('fut', T)
        # provider: owner first makes the future available, others use it afterwards (gate: fork order or future itself)
        # the future is retrieved by the first main fiber before it launches anything
        pre = []
        if task:
            pre.append(('ptmake', p, val(), rng.choice([0, 0, 1, 2, 3])))
        if rng.random() < 0.95:
            pre.append(('getf', p, fu, 0))
        if rng.random() < 0.12:
            pre.append(('getf', p, f2, 0))
        sfs = []
        if shared:
            n = rng.choice([1, 2, 3])
            sfs = [sc.obj('sfut', T) for _ in range(n)]
            pre.append(('share', fu, sfs[0], rng.randrange(2)))
            for a in sfs[1:]:
                pre.append(('scopy', sfs[0], a, rng.randrange(2)))
        sc.pre = getattr(sc, 'pre', []) + pre
        # provider operations
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            noise(sc, rng, own, 0.3)
            if timed and rng.random() < 0.4:
                sc.op(own, rng.choice(['pass', 'sleep']), rng.choice(DT))
            r = rng.random()
            cur = p
            if task:
                if r < 0.6:
                    sc.op(own, 'ptrun', cur)
                elif r < 0.7:
                    sc.op(own, 'ptreset', cur)
                elif r < 0.78:
                    sc.op(own, 'pdrop', cur)
                elif r < 0.86:
                    sc.op(own, rng.choice(['pmove', 'pswap']), cur, p2, rng.randrange(2))
                    p, p2 = p2, p
                elif r < 0.9:
                    sc.op(own, 'ptvalid', cur)
                else:
                    sc.op(own, 'getf', cur, f2)
                    sc.op(own, rng.choice(['fvalid', 'fdrop', 'fwaitu']), f2, 1)
            else:
                if r < 0.55:
                    sc.op(own, 'setv', cur, val(), rng.randrange(2))
                elif r < 0.72:
                    sc.op(own, 'setx', cur, val())
                elif r < 0.84:
                    sc.op(own, 'pdrop', cur)
                elif r < 0.93:
                    sc.op(own, rng.choice(['pmove', 'pswap']), cur, p2, rng.randrange(2))
                    p, p2 = p2, p
                else:
                    sc.op(own, 'getf', cur, f2)
                    sc.op(own, rng.choice(['fvalid', 'fdrop', 'fwaitu']), f2, 1)
        # a second fiber competes for the promise
        if not task and rng.random() < 0.3 and not any(o[0] in ('pdrop', 'pmove', 'pswap') and o[1] in (p, p2) for o in sc.fibers[own - 1]):
            g = rng.choice(fs)
            sc.op(g, rng.choice(['setv', 'setv', 'setx']), p, val(), 0)
        # consumer operations
        users = [(usr, fu)] if not shared else [(rng.choice(fs), a) for a in sfs]
        for u, x in users:
            for _ in range(rng.choice([1, 2, 2, 3])):
                r = rng.random()
                if r < 0.2:
                    sc.op(u, 'fwait', x)
                elif r < (0.45 if timed else 0.2):
                    sc.op(u, 'fwaitu', x, rng.choice(DT + [-2]))
                elif r < 0.55:
                    sc.op(u, 'fgetx', x)
                elif r < 0.62:
                    sc.op(u, 'fvalid', x)
                elif r < 0.66:
                    sc.op(u, 'fdrop', x)
                else:
                    sc.op(u, 'fget', x)
                noise(sc, rng, u, 0.2)
        # waiting by others on the same shared future
        if shared and rng.random() < 0.5:
            g = rng.choice(fs)
            if not any(o[0] in ('fdrop',) and o[1] == sfs[0] for ff in sc.fibers for o in ff):
                sc.op(g, rng.choice(['fget', 'fwait', 'fgetx']), sfs[0])
    # preparation runs on the first main fiber before it starts the others; the other threads' main
    # fibers wait for it at a barrier
    if sc.threads > 1:
        bar = sc.obj('barrier', sc.threads)
        for t in range(sc.threads):
            sc.fibers[t].insert(0, ('bwait', bar, 0, 0))
    sc.fibers[0][0:0] = sc.pre
    finish(sc, rng, detach=0.1)
    return sc


def f01(rng):
    return futs(rng, rng.random() < 0.2, False, False)


def f02(rng):
    return futs(rng, rng.random() < 0.7, rng.random() < 0.5, rng.random() < 0.3)


def f03(rng):
    if rng.random() < 0.6:
        return futs(rng, rng.random() < 0.2, False, True)
    sc = topo(rng)
    sc.owner = {}
    C.schedule(sc, rng, timed=True)
    n = rng.choice([1, 2, 3])
    for _ in range(n):
        T = rng.choice([0, 0, 1])
        fu = sc.obj('fut', T)
        f = rng.choice(list(range(1, len(sc.fibers) + 1)))
        g = sc.fiber()
        sc.op(f, 'async', g, fu, rng.choice([0, 0, 1, 2, 3]))
        for _ in range(rng.choice([0, 1, 2])):
            sc.op(g, *rng.choice([('yield',), ('work', 3), ('sleep', 3), ('pass', 2)]))
        for _ in range(rng.choice([1, 2])):
            sc.op(f, rng.choice(['fget', 'fget', 'fwait', 'fgetx', 'fvalid', 'fwaitu', 'yield']), fu, rng.choice(DT))
    return sc


def f04(rng):
    return futs(rng, rng.random() < 0.2, True, rng.random() < 0.3)


# ---------------------------------------------------------------- fibers
def l01(rng):
    sc = topo(rng)
    sc.owner = {}
    C.schedule(sc, rng, timed=True)
    total = rng.choice([2, 3, 4, 5, 6])
    for _ in range(total):
        f = rng.choice(list(range(1, len(sc.fibers) + 1)))     # nested launches too
        noise(sc, rng, f, 0.3)
        g = sc.fiber()
        sc.op(f, 'fork', g, rng.randrange(2))
        sc.owner[g] = f
        for _ in range(rng.choice([0, 0, 1])):
            sc.op(f, rng.choice(['move', 'joinable', 'yield']), g)
        for _ in range(rng.choice([0, 1, 2])):
            sc.op(g, *rng.choice([('yield',), ('myid',), ('work', 2), ('sleep', rng.choice(DT)), ('pass', 2)]))
    own = list(sc.owner.items())
    rng.shuffle(own)
    for g, f in own:
        r = rng.random()
        if r < 0.1:
            sc.op(f, 'move', g)
        if r < 0.75:
            sc.op(f, 'join', g)
        elif r < 0.9:
            sc.op(f, 'detach', g)
        else:
            continue
        if rng.random() < 0.2:
            sc.op(f, rng.choice(['join', 'detach', 'joinable', 'move']), g)
    # join of oneself, through the own handle
    if rng.random() < 0.2:
        # a fiber launched with post finds its handle in place
        sc2 = [g for g, f in own if ('fork', g, 0, 0) in sc.fibers[f - 1]]
        if sc2 and sc.threads == 1:
            g = rng.choice(sc2)
            f = sc.owner[g]
            sc.fibers[f - 1] = [o for o in sc.fibers[f - 1] if not (o[0] in ('join', 'detach', 'move', 'joinable') and o[1] == g)]
            sc.fibers[g - 1].insert(0, ('join', g, 0, 0))
    # a fiber which nobody joins nor detaches keeps its handle until the end of the program: detached there
    return sc


def l02(rng):
    sc = l01(rng) if rng.random() < 0.5 else base(rng, nmax=5, timed=True)
    if not any(o[0] in ('join', 'detach') for p in sc.fibers for o in p):
        m = sc.obj('mutex')
        c = sc.obj('bch', 4)
        fs = list(fibers(sc))
        # hand over between fibers of different threads, right before they end
        for f in fs:
            r = rng.random()
            if r < 0.4:
                sc.op(f, 'lock', m)
                noise(sc, rng, f, 0.3)
                sc.op(f, 'cunlock', m)
            elif r < 0.6:
                sc.op(f, 'trypush', c, f, 0)
            elif r < 0.8:
                sc.op(f, 'popu', c, rng.choice(DT))
            else:
                sc.op(f, 'sleep', rng.choice(DT))
        finish(sc, rng, detach=0.5)
    return sc


def s02(rng):
    """hand-overs between threads, most of whose fibers are idle"""
    kind = rng.choice(['mutex', 'cv', 'bch', 'uch', 'fut', 'bar', 'sleepmix'])
    T = rng.choice([2, 2, 3])
    k = rng.choice(['rr', 'rr', 'sw', 'ws', 'chaos', 'def'])
    sc = C.Sc(T, [k] * T)
    sc.owner = {}
    workers(sc, rng, rng.choice([0, 0, 1, 2]))
    C.schedule(sc, rng, timed=(kind == 'sleepmix' or rng.random() < 0.2))
    fs = list(fibers(sc))
    if kind == 'mutex':
        m = sc.obj(rng.choice(['mutex', 'rmutex', 'tmutex']))
        for f in fs:
            for _ in range(rng.choice([1, 2, 3])):
                sc.op(f, 'lock', m)
                noise(sc, rng, f, 0.2)
                sc.op(f, 'cunlock', m)
    elif kind == 'cv':
        m, v, c = sc.obj('mutex'), sc.obj('var'), sc.obj('cv')
        for f in fs[1:]:
            sc.op(f, 'lock', m)
            sc.op(f, 'waitp', c, m, v)
            sc.op(f, 'cunlock', m)
        sc.op(1, 'lock', m)
        sc.op(1, 'set', v, m, 1)
        sc.op(1, 'na', c)
        sc.op(1, 'cunlock', m)
    elif kind in ('bch', 'uch'):
        c = sc.obj(kind, 2)
        n = rng.choice([1, 2, 3])
        val = Vals()
        for _ in range(n):
            sc.op(fs[0], 'push', c, val(), 0)
            sc.op(fs[1], 'pop', c)
        for f in fs[2:]:
            if rng.random() < 0.5:
                sc.op(fs[0], 'push', c, val(), 0)
                sc.op(f, 'pop', c)
    elif kind == 'fut':
        p, fu, sf = sc.obj('prom', 1), sc.obj('fut', 1), sc.obj('sfut', 1)
        bar = sc.obj('barrier', T)
        for t in range(T):
            sc.fibers[t].insert(0, ('bwait', bar, 0, 0))
        sc.fibers[0][0:0] = [('getf', p, fu, 0), ('share', fu, sf, 0)]
        for f in fs[1:]:
            sc.op(f, rng.choice(['fwait', 'fget', 'fgetx']), sf)
        sc.op(1, rng.choice(['setv', 'setx', 'pdrop']), p, 1)
    elif kind == 'bar':
        b = sc.obj('barrier', len(fs))
        for f in fs:
            for _ in range(2):
                sc.op(f, 'bwait', b)
    else:
        m = sc.obj('mutex')
        for f in fs:
            for _ in range(2):
                sc.op(f, 'sleep', rng.choice(DT), rng.randrange(3))
                sc.op(f, 'lock', m)
                sc.op(f, 'cunlock', m)
    finish(sc, rng, detach=0.1)
    return sc


def s03(rng):
    sc = base(rng, nmax=5, timed=True)
    m = sc.obj('mutex')
    sc.cfg['p_time'] = rng.choice([0, 0, 0.01, 0.05])
    for f in fibers(sc):
        for _ in range(rng.choice([1, 2, 3])):
            r = rng.random()
            if r < 0.65:
                sc.op(f, 'sleep', rng.choice(DT + [-1, -10, 200]), rng.randrange(3))
            elif r < 0.75:
                sc.op(f, 'pass', rng.choice(DT))
            elif r < 0.9:
                sc.op(f, 'yield')
            else:
                sc.op(f, 'lock', m)
                sc.op(f, 'sleep', rng.choice(DT))
                sc.op(f, 'cunlock', m)
    finish(sc, rng)
    return sc


# ---------------------------------------------------------------- fiber specific storage, properties
def p01(rng):
    sc = base(rng, nmax=5)
    objs = [sc.obj('fss', rng.randrange(2)) for _ in range(rng.choice([1, 2, 3]))]
    val = Vals()
    for f in fibers(sc):
        for _ in range(rng.choice([1, 2, 3, 5])):
            o = rng.choice(objs)
            r = rng.random()
            if r < 0.45:
                sc.op(f, 'fset', o, val())
            elif r < 0.7:
                sc.op(f, 'fget', o)
            elif r < 0.8:
                sc.op(f, 'frel', o)
            elif r < 0.9:
                sc.op(f, 'fnull', o)
            else:
                sc.op(f, 'fsame', o)
            noise(sc, rng, f, 0.4)
    # the pointer may be destroyed by the last user
    if sc.threads == 1 and rng.random() < 0.3:
        finish(sc, rng, detach=0)
        for o in objs:
            if rng.random() < 0.7:
                sc.op(1, 'fnull', o) if rng.random() < 0.3 else None
                sc.op(1, 'fdel', o)
    else:
        finish(sc, rng)
    return sc


def t01(rng):
    T = rng.choice([2, 2, 3, 4])
    sc = C.Sc(T, ['rr'] * T)
    l = sc.obj('spin', rng.randrange(4))
    v = sc.obj('var')
    C.schedule(sc, rng)
    sc.cfg['p_sync'] = rng.choice([0.05, 0.2, 0.4, 0.6])
    for f in fibers(sc):
        for _ in range(rng.choice([1, 2, 3, 4])):
            sc.op(f, rng.choice(['lock', 'lock', 'lock', 'trylock']), l)
            sc.op(f, 'inc', v, l)
            if rng.random() < 0.3:
                sc.op(f, 'work', rng.choice([1, 4, 16, 300, 600]))      # long enough for the others to go to sleep
            sc.op(f, 'unlock', l)
    return sc


def a03q(rng):
    """the queues of work_stealing, driven directly"""
    T = rng.choice([2, 2, 3])
    sc = C.Sc(T, ['rr'] * T)
    q = sc.obj(rng.choice(['spmc', 'spmc', 'spmc', 'spq']), rng.choice([2, 2, 4]))
    C.schedule(sc, rng)
    sc.cfg['p_sync'] = rng.choice([0.05, 0.2, 0.4, 0.6])
    val = Vals()
    # as in the scheduler the first operation of the owner is a push
    b = sc.obj('barrier', T)
    sc.op(1, 'qput', q, val())
    for t in range(1, T + 1):
        sc.op(t, 'bwait', b)
        sc.op(t, 'meet', T)
    pin = rng.random() < 0.4
    for _ in range(rng.choice([2, 4, 6, 10])):
        r = rng.random()
        if pin and r < 0.2:
            sc.op(1, 'qput', q, 100)
            pin = False
        elif r < 0.6:
            sc.op(1, 'qput', q, val())
        elif r < 0.95:
            sc.op(1, 'qget', q)
        else:
            sc.op(1, 'qempty', q)
    for t in range(2, T + 1):
        for _ in range(rng.choice([1, 2, 3, 4])):
            sc.op(t, 'qsteal', q)
    if rng.random() < 0.5:
        for _ in range(3):
            sc.op(1, 'qget', q)
    for t in range(1, T + 1):       # the contexts outlive the thieves
        sc.op(t, 'bwait', b)
    return sc


# ---------------------------------------------------------------- schedulers
def sched_program(rng, sc, n, timed=False, sub=True, locks=True):
    """fibers that become ready for all kinds of reasons"""
    ws = workers(sc, rng, n)
    m = sc.obj(rng.choice(['mutex', 'tmutex', 'rmutex'])) if locks else 0
    v = sc.obj('var') if locks else 0
    cv = sc.obj('cvany') if locks and rng.random() < 0.5 else 0
    sub_of = {}
    for f in list(fibers(sc)):
        for _ in range(rng.choice([1, 2, 2, 3, 4])):
            r = rng.random()
            if r < 0.3:
                sc.op(f, 'yield')
            elif r < 0.55 and locks:
                sc.op(f, 'lock', m)
                sc.op(f, 'inc', v, m)
                noise(sc, rng, f, 0.4)
                sc.op(f, 'cunlock', m)
            elif r < 0.65 and timed:
                sc.op(f, 'sleep', rng.choice(DT), rng.randrange(3))
            elif r < 0.75 and cv and timed:
                sc.op(f, 'lock', m)
                sc.op(f, 'waitu', cv, m, rng.choice(DT))
                sc.op(f, 'cunlock', m)
            elif r < 0.85 and cv:
                sc.op(f, rng.choice(['n1', 'na']), cv)
            elif sub and len(sc.fibers) < n + sc.threads + 4:
                g = sc.fiber()
                sc.op(f, 'fork', g, rng.randrange(2))
                sub_of[g] = f
                for _ in range(rng.choice([0, 1, 2])):
                    sc.op(g, 'yield')
                if rng.random() < 0.5:
                    sc.op(f, 'yield')
                sc.op(f, rng.choice(['join', 'join', 'detach']), g)
            else:
                sc.op(f, 'hasready')
    C.schedule(sc, rng, timed=timed)
    sc.cfg['sched'] = 1
    finish(sc, rng)


def s01(rng):
    sc = topo(rng, algos=['rr', 'rr', 'chaos', 'mixl', 'prio', 'sw', 'swn', 'ws', 'wsn'])
    if sc.algos[0] == 'mixl':
        sc.algos = [rng.choice(['rr', 'chaos']) for _ in range(sc.threads)]
    sched_program(rng, sc, rng.choice([2, 3, 4]), timed=rng.random() < 0.5)
    if not sc.migrates() and rng.random() < 0.5:
        # the scheduling algorithm of a running thread is replaced
        f = rng.randrange(len(sc.fibers)) + 1
        k = 2 if sc.algos[0] == 'prio' else rng.randrange(2)
        ops = sc.fibers[f - 1]
        ops.insert(rng.randrange(len(ops) + 1), ('swalgo', k, 0, 0))
    return sc


def a01(rng):
    sc = C.Sc(rng.choice([1, 1, 2, 3]))
    sched_program(rng, sc, rng.choice([2, 3, 4, 5]), timed=rng.random() < 0.4)
    return sc


def a02(rng):
    T = rng.choice([1, 2, 2, 3])
    sc = C.Sc(T, [rng.choice(['sw', 'swn'])] * T)
    sched_program(rng, sc, rng.choice([2, 3, 4]), timed=rng.random() < 0.3)
    return sc


def a03(rng):
    T = rng.choice([1, 2, 2, 3])
    sc = C.Sc(T, [rng.choice(['ws', 'wsn'])] * T)
    sched_program(rng, sc, rng.choice([2, 3, 4]), timed=rng.random() < 0.3)
    return sc


def p02(rng):
    T = rng.choice([1, 1, 2])
    sc = C.Sc(T, ['prio'] * T)
    ws = workers(sc, rng, rng.choice([2, 3, 4]), pol=None)
    # some are launched with a properties object
    for t in range(T):
        sc.fibers[t] = [(n, o, a, rng.choice([0, 1, 5])) if n == 'fork' else (n, o, a, b) for (n, o, a, b) in sc.fibers[t]]
    # fiber::properties() needs a fiber that has properties: supplied or passed to the scheduler before
    has = {o for t in range(T) for (n, o, a, b) in sc.fibers[t] if n == 'fork' and (a == 0 or b)}
    val = 10
    for f in list(fibers(sc)):
        for _ in range(rng.choice([1, 2, 3, 4])):
            r = rng.random()
            if r < 0.45:
                val += 1
                # a fiber changes its own property or the launcher that of its fiber
                mine = [g for g in ws if sc.owner[g] == f and g in has]
                g = rng.choice(mine) if mine and rng.random() < 0.7 else f
                sc.op(f, 'setprio', g, val)
            elif r < 0.6:
                sc.op(f, 'getprio')
            elif r < 0.9:
                sc.op(f, 'yield')
            elif f > T:
                sc.op(f, 'swalgo', 2)
            else:
                sc.op(f, 'sleep', rng.choice(DT))
    C.schedule(sc, rng)
    sc.cfg['sched'] = 1
    finish(sc, rng)
    return sc


# ---------------------------------------------------------------- close races
PRELUDE = {'fork', 'bwait', 'getf', 'share', 'scopy', 'ptmake', 'made'}


def tighten(sc, rng, p=0.4):
    """the threads meet after the preparation, then switch often"""
    if sc.threads < 2 or sc.script or rng.random() >= p or any(o[0] == 'meet' for f in sc.fibers for o in f):
        return sc
    for t in range(sc.threads):
        ops = sc.fibers[t]
        k = 0
        while k < len(ops) and ops[k][0] in PRELUDE:
            k += 1
        ops.insert(k, ('meet', sc.threads, 0, 0))
    return sc


def duel(rng, fam):
    """a few operations on each of two or three threads, started at the same moment"""
    T = rng.choice([2, 2, 2, 3])
    k = rng.choice(['rr', 'rr', 'def', 'chaos', 'sw', 'ws'])
    sc = C.Sc(T, [k] * T)
    sc.owner = {}
    val = Vals()
    timed = rng.random() < 0.4
    C.schedule(sc, rng, timed=timed)
    if rng.random() < 0.7:
        sc.cfg['p_plain'] = 0
    who = list(range(1, T + 1))
    # one of the sides may be a fiber which its thread runs as soon as the main fiber waits
    for t in range(T):
        if rng.random() < 0.25 and not k[0] in 'sw':
            g = sc.fiber()
            sc.op(t + 1, 'fork', g, rng.randrange(2))
            sc.owner[g] = t + 1
            who.append(g)
    rng.shuffle(who)
    pre, dt = [], [0, 1, 2, 5]

    def w(*xs):
        return rng.choice(xs)
    body = {f: [] for f in who}

    def o(f, name, ob=0, a=0, b=0):
        body[f].append((name, ob, a, b))
    if fam == 'mutex':
        kind = w('mutex', 'rmutex', 'tmutex', 'rtmutex')
        m, v = sc.obj(kind), sc.obj('var')
        for f in who:
            for _ in range(w(1, 1, 2, 3)):
                acq = w('lock', 'lock', 'trylock') if 't' not in kind[:2] else w('lock', 'tlock', 'tlock', 'trylock')
                o(f, acq, m, *((w(*dt), rng.randrange(3)) if acq == 'tlock' else ()))
                o(f, 'inc', v, m)
                if timed and rng.random() < 0.5:
                    o(f, 'pass', w(1, 2, 5))
                o(f, 'cunlock', m)
    elif fam == 'cv':
        std = rng.random() < 0.5
        m, v, c = sc.obj('mutex' if std else w('mutex', 'rmutex', 'tmutex')), sc.obj('var'), sc.obj('cv' if std else 'cvany')
        for j, f in enumerate(who):
            if j == 0 or (j > 1 and rng.random() < 0.4):
                for _ in range(w(1, 1, 2)):
                    style = rng.randrange(3)
                    if style:
                        o(f, 'lock', m)
                        o(f, 'set', v, m, 1)
                        if style == 1:
                            o(f, w('n1', 'na'), c)
                        o(f, 'cunlock', m)
                    if style != 1:
                        o(f, w('n1', 'na'), c)
            else:
                o(f, 'lock', m)
                x = w('wait', 'waitp', 'waitp', 'waitu', 'waitpu') if timed else w('wait', 'waitp')
                o(f, x, c, m, *{'wait': (0,), 'waitp': (v,), 'waitu': (w(*dt),), 'waitpu': (v * 1000 + w(*dt),)}[x])
                o(f, 'cunlock', m)
    elif fam == 'bar':
        b = sc.obj('barrier', len(who))
        n = w(1, 2, 3)
        for f in who:
            for _ in range(n):
                o(f, 'bwait', b, 1, sum(1 << x for x in who))
    elif fam in ('bch', 'uch'):
        c = sc.obj(fam, w(2, 2, 4) if fam == 'bch' else 0)
        if fam == 'bch':
            for _ in range(w(0, 0, 1)):
                pre.append(('trypush', c, val(), 0))
        pushes = (['push', 'push', 'trypush'] if fam == 'bch' else ['push']) + (['pushu'] if timed else [])
        pops = (['pop', 'vpop', 'trypop'] if fam == 'bch' else ['pop', 'vpop']) + (['popu', 'popu'] if timed else [])
        for j, f in enumerate(who):
            for _ in range(w(1, 1, 2)):
                r = rng.random()
                x = w(*pushes) if (j % 2 == 0) == (r < 0.9) else w(*pops)
                if x == 'pushu':
                    o(f, x, c, val(), 2 * w(*dt) + rng.randrange(2))
                elif x == 'popu':
                    o(f, x, c, w(*dt))
                elif x in ('push', 'trypush'):
                    o(f, x, c, val(), rng.randrange(2))
                else:
                    o(f, x, c)
            if rng.random() < 0.25:
                body[f].insert(rng.randrange(len(body[f]) + 1), ('close', c, 0, 0))
    elif fam in ('prom', 'fut', 'sfut', 'pt'):
        ty = w(0, 0, 1, 2)
        task = fam == 'pt' or (fam in ('fut', 'sfut') and rng.random() < 0.2)
        p, fu = sc.obj('pt' if task else 'prom', ty), sc.obj('fut', ty)
        if task:
            pre.append(('ptmake', p, val(), w(0, 0, 1)))
        pre.append(('getf', p, fu, 0))
        sf = []
        if fam == 'sfut':
            sf = [sc.obj('sfut', ty) for _ in range(len(who))]
            pre.append(('share', fu, sf[0], rng.randrange(2)))
            same = rng.random() < 0.3
            if not same:
                for a in sf[1:]:
                    pre.append(('scopy', sf[0], a, rng.randrange(2)))
        own = who[0]
        rivals = [own] + ([who[1]] if fam == 'prom' and not task and len(who) > 2 else [])
        for f in rivals:
            if task:
                o(f, w('ptrun', 'ptrun', 'ptrun', 'pdrop') if fam == 'pt' else 'ptrun', p)
            else:
                x = w('setv', 'setv', 'setx', 'pdrop') if len(rivals) == 1 else w('setv', 'setv', 'setx')
                o(f, x, p, 0 if x == 'pdrop' else val(), rng.randrange(2) if x == 'setv' else 0)
        if len(rivals) == 1 and rng.random() < 0.4:
            o(own, 'pdrop', p)
        users = [f for f in who if f not in rivals]
        for j, f in enumerate(users):
            if not sf and j:
                break
            x = (sf[0] if same else sf[j]) if sf else fu
            for _ in range(w(1, 1, 2)):
                y = w('fwait', 'fget', 'fget', 'fgetx', 'fwaitu' if timed else 'fget')
                o(f, y, x, w(*dt) if y == 'fwaitu' else 0)
            if rng.random() < 0.5 and not (sf and same):
                o(f, 'fdrop', x)
        if sf and rng.random() < 0.5 and not same:
            o(own, 'fdrop', sf[-1])
    else:   # hand over of the end of a fiber between threads
        sc.algos = [w('sw', 'ws', 'wsn', 'swn')] * T
        for f in list(who):
            for _ in range(w(1, 1, 2)):
                g = sc.fiber()
                body[f].append(('fork', g, rng.randrange(2), 0))
                for _ in range(w(0, 1, 1, 2)):
                    sc.op(g, *w(('yield',), ('yield',), ('work', 2), ('sleep', w(*dt))))
                if rng.random() < 0.4:
                    o(f, 'yield')
                o(f, w('join', 'join', 'join', 'detach'), g)
        sc.cfg['p_plain'] = w(0, 0, 0.02)
    bar = None
    if pre:
        bar = sc.obj('barrier', T)
        forks = sc.fibers[0]
        sc.fibers[0] = pre + [('bwait', bar, 0, 0)] + forks
        for t in range(1, T):
            sc.fibers[t] = [('bwait', bar, 0, 0)] + sc.fibers[t]
    for t in range(T):
        sc.op(t + 1, 'meet', T)
    for f in who:
        sc.fibers[f - 1].extend(body[f])
    finish(sc, rng, detach=0.1)
    return sc


def _duel(fam):
    return lambda rng: duel(rng, fam)


for _f in ('mutex', 'cv', 'bar', 'bch', 'uch', 'prom', 'fut', 'sfut', 'pt', 'life'):
    globals()['d_' + _f] = _duel(_f)


def d_any(rng):
    return duel(rng, rng.choice(['mutex', 'cv', 'bar', 'bch', 'uch', 'prom', 'fut', 'sfut', 'pt', 'life']))
