"""Scenario generators shared by the checks."""
import math, vp, random

NUMBERS = ('long', 'int', 'double', 'float')
REDUCING = ('allreduce', 'reduce', 'reduce_scatter', 'reduce_scatter_block')
ROOTED = ('reduce', 'bcast', 'gather', 'gatherv', 'scatter', 'scatterv')
VECTOR = ('allgatherv', 'gatherv', 'scatterv', 'reduce_scatter')
TYPES = ('allreduce', 'reduce', 'reduce_scatter', 'reduce_scatter_block', 'allgather', 'allgatherv', 'gather', 'gatherv', 'bcast', 'scatter', 'scatterv')

def pf(n):
    o = []; d = 2
    while n > 1:
        while n % d == 0: o.append(d); n //= d
        d += 1
    return o
_seqs = {}
def seqs(n):
    """sequences of factors with product >= n whose last factor cannot be made smaller"""
    if n in _seqs: return _seqs[n]
    out = []
    def rec(p, k):
        if k >= n:
            if len(p) == 0 or (k // p[-1]) * (p[-1] - 1) < n: out.append(tuple(p))
            return
        for f in range(2, n + 1): rec(p + [f], k * f)
    rec([], 1); _seqs[n] = out
    return out
def ports(rng, t, nodes, exact=False):
    """a valid value of ext_mpi_num_ports and whether the product of its factors is the number of nodes"""
    if nodes < 2: return None
    s = rng.choice([x for x in seqs(nodes) if not exact or math.prod(x) == nodes]); prod = math.prod(s)
    l = rng.randrange(len(s) + 1) if t in ('allreduce', 'reduce', 'bcast') else 0
    return f'{nodes}(' + '_'.join(map(str, [-(s[len(s) - 1 - j] - 1) for j in range(l)] + [f - 1 for f in s])) + ')', prod == nodes, 0 < l < len(s)
def copyin(rng, ppn):
    """a valid value of ext_mpi_copyin (0;factors with product ppn)"""
    if ppn == 1: return None
    f = pf(ppn); rng.shuffle(f); k = rng.randrange(len(f)); lin = 1
    for x in f[:k]: lin *= x
    return '0;' + '_'.join(map(str, ([lin] + f[k:]) if k else f))

def counts_for(rng, n, small=False):
    return rng.choice([1, 2, 3, 5, max(1, n - 1), n, n + 1, 2 * n, 7, 16, 33] if small else [1, 2, 3, 5, max(1, n - 1), n, n + 1, 3 * n, 7, 64, 129, 513, 1000, 4096, 9999, 20000, 65536])

def coll_line(i, d):
    return f'coll {i} ' + ' '.join(f'{k}={v}' for k, v in d.items())

def gen_coll(rng, t, n, ppn, tune='auto', dts=None, small=False, inplace=None, root=None, count=None, exact=False):
    """one collective; tune: auto (measured defaults), fixed (copy-in fixed, no measurement), random (every documented knob)"""
    nodes = n // ppn
    if not dts:           # reductions are limited to four types, the others work on any contiguous type
        dts = NUMBERS if t in REDUCING or rng.random() < .6 else ('char', 'byte', 'short', 'ull', 'complex', 'trip')
    d = {'type': t, 'count': count if count is not None else counts_for(rng, n, small), 'dt': rng.choice(dts)}
    if tune == 'auto' and count is None:          # measurements execute the collective many times
        while d['count'] * (n if t not in ('allreduce', 'reduce', 'bcast') else 1) > 70000: d['count'] = counts_for(rng, n, small)
    if t in ROOTED: d['root'] = rng.randrange(n) if root is None else root % n
    if t in VECTOR:
        c = d['count']
        cs = [rng.choice([0, 1, 5, c, c, c, 2 * c]) if c else 0 for k in range(n)]
        if rng.random() < (.7 if exact else .4): cs = [c] * n
        if sum(cs) == 0 and c: cs[rng.randrange(n)] = 1
        d['counts'] = ','.join(map(str, cs))
    info = []
    if tune == 'random' and ppn > 1 and rng.random() < .2:         # treat a node as several smaller ones
        ppn = rng.choice([x for x in range(1, ppn) if ppn % x == 0]); nodes = n // ppn
        info.append(f'ext_mpi_num_tasks_per_socket:{ppn}')
    if tune != 'auto':
        ci = copyin(rng, ppn)
        if ci: info.append('ext_mpi_copyin:' + ci)
    if tune == 'random':
        if exact or rng.random() < .7:       # exact: the factors multiply to the number of nodes and the recursive algorithms serve them
            pp = ports(rng, t, nodes, exact)
            if pp:
                nr = not exact and (not pp[1] or rng.random() < .4)
                info.append('ext_mpi_num_ports:' + pp[0])
                info.append('ext_mpi_not_recursive:%d' % nr)
        elif rng.random() < .4: info.append('ext_mpi_not_recursive:1')
        elif rng.random() < .2: info.append('ext_mpi_minimum_computation:1')
        if rng.random() < .5: info.append(f'ext_mpi_alternating:{rng.randrange(2)}')
        if t == 'allreduce' and rng.random() < .2: info.append('ext_mpi_bit_identical:1')
    if info: d['info'] = '|'.join(info)
    if inplace is None: inplace = rng.random() < .25
    if t in ('allreduce', 'reduce') and inplace: d['inplace'] = 1
    if t in ('reduce', 'gather', 'gatherv', 'scatter', 'scatterv') and rng.random() < .6 and not d.get('inplace'): d['nonroot'] = 'null' if t == 'reduce' or rng.random() < .4 else 'insig'
    return d

def world(rng, n, ppn, sched=None, net=None, extra=''):
    sched = sched or rng.choice(['rand', 'rand', 'seq', 'rseq', 'prio', 'prio'])
    net = net or rng.choice(['mixed', 'eager', 'rdv', 'rdv'])
    return f'world n={n} ppn={ppn} seed={rng.randrange(1, 10**6)} sched={sched} net={net} stale={rng.choice([0, 1, 1, 2])} fill={rng.choice([0xA5, 0, 0x7f])} record=1 {extra}'

def shapes(maxn, minn=1):
    return [(n, p) for n in range(minn, maxn + 1) for p in range(1, n + 1) if n % p == 0]

def env_lines(env): return [f'env {k} {v}' for k, v in env.items()]

def single(rng, n, ppn, d, iters=2, env=None, jitter=True, debug=False, only=vp.ALL, tree=0, extra='', sched=None, net=None, key='', tlc=True):
    L = [world(rng, n, ppn, sched, net, extra)] + env_lines(env or {}) + [coll_line(0, d)]
    for r in range(n):
        it = ''.join(f'uw 0 {k};' + (f'yield {rng.choice([0, 1, 30, 400])};' if jitter else '') + f'start 0;wait 0;ur 0 {k};' for k in range(iters))
        L.append(f'rank {r}: mpiinit;' + ('' if debug else 'setint ext_mpi_debug 0;') + f'rec 1;init 0;{it}free 0;mpifin')
    k = f'{key}n={n} ppn={ppn} ' + ' '.join(f'{a}={b}' for a, b in d.items()) + (' ' + ' '.join(f'{a}={b}' for a, b in env.items()) if env else '')
    return vp.Case(k, L, {0: d}, {0: list(range(n))}, tree, tlc, only)

# ---------------------------------------------------------------------------- programs over several collectives
def program(rng, n, ppn, colls, members, body, derive=None, env=None, extra='', sched=None, net=None, debug=False, only=vp.ALL, tree=0, key='', tlc=True, tail=None, world_line=None, meta=None, threads=False, f08=False):
    """colls {id: dict}; members {comm: ranks}; body(rank) -> statements between init and free"""
    L = [world_line or world(rng, n, ppn, sched, net, extra)] + env_lines(env or {}) + [coll_line(i, d) for i, d in sorted(colls.items())]
    for r in range(n):
        L.append(f'rank {r}: ' + ('lang f;' if f08 else '') + 'mpiinit' + (' thread;' if threads else ';') + ('' if debug else 'setint ext_mpi_debug 0;') + 'rec 1;' + (derive(r) if derive else '') + body(r) + 'mpifin')
    return vp.Case(key, L, colls, members, tree, tlc, only, meta)

def mine(colls, members, r): return [i for i in sorted(colls) if r in members[int(colls[i].get('comm', 0))]]

POLLS = ('test', 'testany', 'testsome', 'testall', 'testallst', 'testanyst', 'testsomest')
WAITS = ('wait', 'waitall', 'waitallst', 'waitany', 'waitsome', 'waitanyst', 'waitsomest')
def complete(rng, kind, ids):
    """statements that complete the started collectives ids"""
    if not ids: return ''
    if kind in ('wait', 'test'): return ''.join(f'{kind} {i};' for i in ids)
    return f'{kind} ' + ' '.join(map(str, ids)) + ';'
def fair(kind): return kind not in ('wait', 'waitall', 'waitallst')

def multi_case(rng, n, ppn, colls, members, iters=2, derive=None, undo=None, kinds=None, key='', noall=False, **kw):
    order = sorted(colls); rng.shuffle(order)
    # processes may start and complete them in different orders and by different calls
    def per_rank(f, p): c = f(); return [c if rng.random() >= p else f() for _ in range(n)]
    own = rng.choice([0, .5, 1]); pick = lambda: rng.choice(kinds or POLLS + WAITS + ('wait', 'wait'))
    calls = [per_rank(pick, own) for _ in range(iters)]
    start_order = [per_rank(lambda: rng.sample(order, len(order)), own) for _ in range(iters)]
    done_order = [per_rank(lambda: rng.sample(order, len(order)), own) for _ in range(iters)]
    again = [rng.choice(order) for _ in range(iters)]
    useall = [rng.random() < .3 and not noall for _ in range(iters)]
    overlap = [rng.random() < .5 for _ in range(iters)]       # complete one and start it again while the others are still outstanding
    free_order = rng.sample(order, len(order))
    jit = {r: random_jit(rng) for r in range(n)}
    early = undo and rng.random() < .4      # the communicators are freed while the collectives still exist
    def body(r):
        m = set(mine(colls, members, r)); s = ''.join(f'init {i};' for i in order if i in m) + (undo(r) if early else '')
        k = {i: 0 for i in m}
        for t in range(iters):
            so = [i for i in start_order[t][r] if i in m]; do = [i for i in done_order[t][r] if i in m]
            s += ''.join(f'uw {i} {k[i]};' for i in so) + jit[r]()
            if useall[t] and so: s += 'startall ' + ' '.join(map(str, so)) + ';'
            else: s += ''.join(f'start {i};' + (jit[r]() if rng.random() < .3 else '') for i in so)
            if overlap[t] and again[t] in m:
                i = again[t]; s += f'wait {i};ur {i} {k[i]};'; k[i] += 1
                s += f'uw {i} {k[i]};start {i};'
            s += complete(rng, calls[t][r], do) + ''.join(f'ur {i} {k[i]};' for i in do)
            for i in do: k[i] += 1
        return s + ''.join(f'free {i};' for i in free_order if i in m) + (undo(r) if undo and not early else '')
    sched = None
    if len(order) > 1 or any(fair(k) for c in calls for k in c): sched = rng.choice(['rand', 'rand', 'rr']); kw.setdefault('net', rng.choice(['rdv', 'rdv', 'eager']))
    return program(rng, n, ppn, colls, members, body, derive, sched=sched, key=f'{key}n={n} ppn={ppn} ' + '; '.join(f'{i}:' + ','.join(f'{a}={b}' for a, b in d.items()) for i, d in sorted(colls.items())) + ' ' + ','.join(dict.fromkeys(k for c in calls for k in c)), **kw)

def crowd_case(rng, n, ppn, comms, derive, undo, ncolls, skew=0, blocks=8, key='', first=None, on=None, **kw):
    """many collectives come and go on several communicators while others are outstanding"""
    colls = {}; cs = sorted(comms)
    for i in range(ncolls):
        c = rng.choice(on[1] if on else cs); m = len(comms[c])
        d = gen_coll(rng, rng.choice(TYPES), m, 1, 'auto', count=rng.choice([1, 1, 2, 3])); d['comm'] = c; colls[i] = d
    dummies = {}
    for i in range(skew):
        c = on[0] if on else rng.choice(cs); dummies[ncolls + i] = {**gen_coll(rng, "bcast", len(comms[c]), 1, "auto", count=1), "comm": c}
    new = list(range(ncolls)); idle = []; act = []; k = {i: 0 for i in colls}; ops = []
    def start(ids):
        ops.append(('start', list(ids), [rng.sample(ids, len(ids)) for _ in range(n)]))
        for i in ids: idle.remove(i); act.append(i)
    def done(ids):
        ops.append(('done', list(ids), [(rng.choice(POLLS + WAITS + ('wait',)), rng.sample(ids, len(ids))) for _ in range(n)]))
        for i in ids: act.remove(i); idle.append(i); k[i] += 1
    def init(ids):
        for i in ids: new.remove(i); idle.append(i)
        ops.append(('init', list(ids), None))
    for i in sorted(dummies): ops.append(('init', [i], None)); ops.append(('free', [i], None))
    for b in range(blocks):
        if new: init(new[:(first or 5 if on else first or 2) if b == 0 else len(new) if b == blocks - 2 or rng.random() < .3 else rng.randrange(len(new) + 1)])
        if idle: start(rng.sample(idle, rng.randint(1, min(len(idle), 5))))
        if act and b and rng.random() < .8: done(rng.sample(act, rng.randint(1, len(act))))
        if len(idle) > 2 and rng.random() < .4:
            for i in rng.sample(idle, rng.randint(1, 2)): idle.remove(i); ops.append(('free', [i], None))
    if idle and any(not k[i] for i in idle): start([i for i in idle if not k[i]])
    if act: done(list(act))
    for i in rng.sample(idle, len(idle)): ops.append(('free', [i], None))
    every = {**colls, **dummies}; jit = {r: random_jit(rng) for r in range(n)}
    def body(r):
        s = ''; it = {i: 0 for i in every}; m = set(mine(every, comms, r))
        for o, ids, how in ops:
            ids = [i for i in ids if i in m]
            if not ids: continue
            if o in ('init', 'free'): s += ''.join(f'{o} {i};' for i in ids)
            elif o == 'start': s += ''.join(f'uw {i} {it[i]};start {i};' + jit[r]() for i in how[r] if i in m)
            else:
                kind, order = how[r]; order = [i for i in order if i in m]
                s += complete(rng, kind, order) + ''.join(f'ur {i} {it[i]};' for i in order)
                for i in order: it[i] += 1
        return s + (undo(r) if undo else '')
    kw.setdefault('net', rng.choice(['rdv', 'rdv', 'eager']))
    return program(rng, n, ppn, every, comms, body, derive, sched=rng.choice(['rand', 'rand', 'rr']), key=f'{key}n={n} ppn={ppn} {ncolls} collectives ({skew} before) on ' + ' '.join(str(comms[c]) for c in cs), **kw)

def random_jit(rng):
    p = rng.random()
    return lambda: (f'yield {rng.choice([1, 20, 200, 1000])};' if rng.random() < p else '')
