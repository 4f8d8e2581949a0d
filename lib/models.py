"""Models that TLC checks exhaustively, and tours: behaviours of the specification replayed into the library."""
import re, time
import core as C

# name -> (specification, configuration, quick environment, thorough environment)
MODELS = {'mc-' + fam: ('FiberMC.tla', 'FiberMC.cfg', dict(FAM=fam, MODE='mc', LEN=str(q)), dict(FAM=fam, MODE='mc', LEN=str(t)))
          for fam, (q, t) in dict(mutex=(6, 9), rmutex=(6, 8), tmutex=(5, 7), rtmutex=(4, 6), cv=(4, 6), cvany=(4, 6), cvp=(5, 7), bar1=(6, 8),
                                  bar2=(7, 12), bar3=(7, 11), bch2=(3, 5), bch4=(3, 5), uch=(4, 6), prom=(4, 6), fut=(3, 5), sfut=(3, 5), task=(4, 5),
                                  life=(4, 6), sleep=(4, 5), fss=(3, 4), **{'async': (4, 5)}).items()}

# mechanism models: name -> (module, quick bounds, thorough bounds, slips that TLC has to refute with their bounds)
MECH = {
    'MWait': ([dict(SHAPE='21', TIMED='1')],
              [dict(SHAPE='21', TIMED='2', ROUNDS='2'), dict(SHAPE='31', TIMED='2'), dict(SHAPE='22', TIMED='3'), dict(SHAPE='30', TIMED='3', ROUNDS='2')],
              [(v, dict(SHAPE='21', TIMED='1')) for v in ('oneshot', 'noepoch', 'flagfirst', 'nonotify', 'swallow')] +
              [('sleepstays', dict(SHAPE='21', TIMED='1', ROUNDS='2'))]),
    'MUnbuf': ([dict(NC='1', CLOSE='1')],
               [dict(CLOSE='1'), dict(CLOSE='0'), dict(NP='3', NC='0', TIMEDC='0', CLOSE='1'), dict(NP='1', NC='1', ROUNDS='2', CLOSE='1')],
               [(v, dict(CLOSE='0')) for v in ('oneshot', 'noretract', 'nohandover', 'nocheckp', 'nocheckc', 'statusfirst')] +
               [(v, dict(CLOSE='1')) for v in ('closekeeps', 'closerace')] + [('closeone', dict(NP='3', NC='0', TIMEDC='0', CLOSE='1'))]),
    'MSpmc': ([dict(THIEVES='1'), dict(THIEVES='2', STEALS='1', ITEMS='2')], [dict(), dict(THIEVES='1', STEALS='3', ITEMS='5')],
              [(v, dict(STEALS='1')) for v in ('nofence', 'nocas', 'nothiefcas', 'stealpinned', 'growoff', 'fulllate', 'publishfirst')]),
    'MFutex': ([dict(ROUNDS='1')], [dict(ROUNDS='2')], [(v, dict(ROUNDS='1')) for v in ('blindwait', 'relock1', 'nozero', 'nowake')]),
}


def tlc_model(name, tla, cfg, env, wd, tier, refuted=False):
    t = time.time()
    rc, out = C.tlc(tla, cfg, wd, env=env, workers=4, heap='6g', tag=name, timeout=600 if tier == 'quick' else 3000)
    ok = rc == 0 and 'Model checking completed. No error' in out
    if refuted:
        ok = 'Deadlock reached' in out or 'is violated' in out
    if not ok:
        raise C.TlcError(name + ' ' + str(env) + ': ' + out[-3000:])
    g, d = C.stats(out)
    return dict(model=name, specification=tla, bounds=env, generated=g, distinct=d, wall_s=round(time.time() - t, 1), **({'refuted': True} if refuted else {}))


def run(name, tier, wd):
    """lets TLC explore a model exhaustively; a violated invariant of a model is an error of the specification, not of the library"""
    if name in MECH:
        quick, thorough, slips = MECH[name]
        out = [tlc_model(name, name + '.tla', name + '.cfg', e, wd, tier) for e in (quick if tier == 'quick' else thorough)]
        if tier != 'quick':
            out += [tlc_model(name, name + '.tla', name + '.cfg', dict(e, VARIANT=v), wd, tier, True) for v, e in slips]
        return out
    tla, cfg, quick, thorough = MODELS[name]
    return [tlc_model(name, tla, cfg, quick if tier == 'quick' else thorough, wd, tier)]


# ---------------------------------------------------------------- tours
# family -> number of calls (quick, thorough)
TOURS = dict(mutex=(6, 9), rmutex=(6, 9), tmutex=(5, 8), rtmutex=(5, 8), cv=(6, 8), cvp=(6, 9), cvany=(5, 7), bar1=(6, 8), bar2=(8, 12),
             bar3=(10, 13), bch2=(6, 9), bch4=(7, 9), uch=(6, 9), prom=(4, 6), fut=(5, 7), sfut=(5, 7), task=(4, 6), life=(5, 7), **{'async': (4, 6)},
             sleep=(5, 6), fss=(4, 5))
SPREAD = {'mutex', 'rmutex', 'tmutex', 'rtmutex', 'cv', 'cvp', 'cvany', 'bar1', 'bar2', 'bar3', 'bch2', 'bch4', 'uch', 'sleep'}
DYNAMIC = {'life', 'async'}
TUPLE = re.compile(r'<<(\d+), "(\w+)", (-?\d+), (-?\d+), (-?\d+)>>')


def behaviours(fam, length, wd):
    """all transitions of the family's state graph that are calls, each with the shortest sequence of calls leading to it"""
    rc, out = C.tlc('FiberMC.tla', 'FiberTour.cfg', wd, env=dict(FAM=fam, MODE='tour', LEN=str(length)), tag='tour-' + fam, heap='4g')
    if rc != 0 or 'Model checking completed. No error' not in out:
        raise C.TlcError(out[-3000:])
    m = re.search(r'<<\\?"FAM\\?", (.*), (\d+)>>', out)
    decls = [(k, int(a), int(b)) for k, a, b in re.findall(r'<<\\?"(\w+)\\?", (-?\d+), (-?\d+)>>', m.group(1))]
    n = int(m.group(2))
    hs = histories(out)
    g, d = C.stats(out)
    return decls, n, maximal(hs), dict(transitions=len(hs), generated=g, distinct=d)


def histories(out):
    hs = set()
    for line in out.splitlines():
        if line.startswith('"<<<<'):
            hs.add(tuple((int(f), op, int(o), int(a), int(b)) for f, op, o, a, b in TUPLE.findall(line.replace('\\"', '"'))))
    return hs


def maximal(hs):
    pre = {h[:k] for h in hs for k in range(1, len(h))}
    return sorted(h for h in hs if h not in pre)


def walks(fam, num, length, seed, wd):
    """random long behaviours of the family, from TLC's simulator"""
    rc, out = C.tlc('FiberMC.tla', 'FiberTour.cfg', wd, env=dict(FAM=fam, MODE='tour', LEN=str(length)), tag='walk-' + fam,
                    extra=['-simulate', 'num=%d' % num, '-depth', str(12 * length), '-seed', str(seed)], heap='4g')
    if rc != 0 or 'Error' in out:
        raise C.TlcError(out[-3000:])
    return maximal(histories(out))


def scenario(fam, decls, n, h, rng, threads=1):
    """a program and the order of its calls that make the library take the transitions of h"""
    sc = C.Sc(threads, ['script'] if threads == 1 else [rng.choice(['rr', 'chaos'])] * threads)
    for d in decls:
        sc.obj(*d)
    while len(sc.fibers) < n:
        sc.fiber()
    step = threads == 1
    if fam not in DYNAMIC:
        for g in range(threads + 1, n + 1):
            sc.op(rng.randrange(threads) + 1, 'fork', g, 0)
    val, fin = 0, set()
    for f, op, o, a, b in h:
        if step:
            sc.op(f, 'park')
            sc.script.append(f)
        if op == 'fin':
            fin.add(f)
            continue
        if op in ('push', 'trypush', 'setv', 'setx', 'ptmake', 'fset'):
            val += 1
            a = val
            if op in ('push', 'trypush', 'setv'):
                b = rng.randrange(2)
        elif op == 'pushu':
            val += 1
            a, b = val, b + rng.randrange(2)
        elif op == 'tlock':
            b = rng.randrange(3)
        elif op == 'sleep':
            a = rng.randrange(3)
        sc.op(f, op, o, a, b)
    if step:
        for f in range(1, n + 1):
            if f not in fin:
                sc.op(f, 'park')
    C.schedule(sc, rng)
    if step:
        sc.cfg.update(p_time=0, tick=0)
    return sc


def tour(fam, tier, rng, wd, share=1):
    length = TOURS[fam][0 if tier == 'quick' else 1]
    decls, n, hs, info = behaviours(fam, length, wd)
    total = len(hs)
    cap = max(700, 2400 // share) if tier == 'quick' else 40000
    if len(hs) > cap:
        hs = rng.sample(hs, cap)
    num, wl = (max(200, 600 // share), 14) if tier == 'quick' else (6000, 24)
    ws = walks(fam, num, wl, rng.randrange(1, 1 << 30), wd)
    hs = hs + ws
    scs = [scenario(fam, decls, n, h, rng) for h in hs]
    # the same programs, spread over two threads
    if fam in SPREAD and n > 2:
        scs += [scenario(fam, decls, n, h, rng, 2) for h in (hs if len(hs) < cap // 2 + len(ws) else rng.sample(hs, cap // 2 + len(ws)))]
    info.update(family=fam, calls=length, behaviours=total, replayed=len(hs) - len(ws), walks=len(ws), walk_calls=wl)
    return scs, info
