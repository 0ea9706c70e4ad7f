"""The check of every property: which cases are generated, and which deviations of the implementation's
recordings from the specification count as a violation of the property."""
import random, json, os, sys, traceback
import vp, gen, conv
from gen import *

# ---------------------------------------------------------------------------- results of the collectives
def results_cases(ck, types, nquick, nthorough, maxn=8):
    rng = ck.rng; cases = []
    N = nthorough if ck.thorough else nquick
    sh = shapes(maxn if not ck.thorough else 12, 2)
    # every shape and root once with fixed tuning, small counts: the systematic part
    for t in types:
        for n, p in shapes(6 if not ck.thorough else 9):
            roots = range(n) if t in ROOTED and (ck.thorough or n <= 4) else [rng.randrange(n)]
            for r in roots:
                d = gen_coll(rng, t, n, p, 'fixed', small=True, root=r)
                cases.append(single(rng, n, p, d, iters=2))
    # random part
    w = []
    for i in range(N):
        t = types[i % len(types)]; n, p = rng.choice(sh)
        tune = rng.choice(['auto', 'random', 'random', 'random', 'fixed'])
        d = gen_coll(rng, t, n, p, tune)
        # every ninth one with the self-check of the initialisation, which is on by default (that of bcast borrows the buffer and gives it back unchanged)
        dbg = i % 9 == 4
        cases.append(single(rng, n, p, d, iters=1 if rng.random() < .5 else 2, debug=dbg, only=[x for x in vp.ALL if x != 'buffer' or not dbg]))
    # the recursive algorithms, which serve numbers of nodes that are products of the steps' factors
    for i in range(300 if ck.thorough else 14):
        t = types[i % len(types)]; p = rng.choice([1, 1, 2]); k = rng.choice([4, 4, 6, 8, 9, 12] if i % 2 else [4, 2, 3, 5, 6])
        if k * p > 16: p = 1
        d = gen_coll(rng, t, k * p, p, 'random', small=True, exact=True)
        cases.append(single(rng, k * p, p, d, iters=2))
    # no elements at all
    for i in range(200 if ck.thorough else 16):
        t = types[i % len(types)]; n, p = rng.choice(sh if i % 4 else [x for x in sh if x[1] > 1])
        d = gen_coll(rng, t, n, p, rng.choice(['auto', 'random', 'fixed']), count=0)
        cases.append(single(rng, n, p, d, iters=2, debug=i % 5 == 4, only=[x for x in vp.ALL if x != 'buffer' or i % 5 != 4]))
    # many nodes: the schedules of more nodes than factors allow, of prime numbers, of many stages
    for i in range(250 if ck.thorough else 16):
        t = types[i % len(types)]; p = rng.choice([1, 1, 1, 2, 2, 3]); n = p * rng.randrange(5, (36 if ck.thorough else 20) // p + 1)
        d = gen_coll(rng, t, n, p, rng.choice(['auto', 'random', 'random']), small=True)
        cases.append(single(rng, n, p, d, iters=2, net=rng.choice(['mixed', 'eager', 'rdv'])))
    # reductions to a root in the middle, in stages whose factors multiply to more than the number of nodes
    if 'reduce' in types:
        l = [(11, '-1_1_1_1_1'), (12, '-1_-3_1_3_1'), (14, '-1_2_2_1'), (15, '-2_1_2_2')]
        for i in range(150 if ck.thorough else 12):
            if i < len(l): n, pp = l[i]
            else:
                n = rng.randrange(5, 17); s = rng.choice([x for x in seqs(n) if len(x) > 1]); k = rng.randrange(1, len(s))
                pp = '_'.join(map(str, [-(s[len(s) - 1 - j] - 1) for j in range(k)] + [f - 1 for f in s]))
            cases.append(single(rng, n, 1, {'type': 'reduce', 'count': rng.choice([1, 3, 5, 20]) if i >= len(l) else 3, 'dt': rng.choice(['int', 'long']), 'root': n // 2,
                                            'info': f'ext_mpi_num_ports:{n}({pp})|ext_mpi_not_recursive:1|ext_mpi_alternating:{i // 2 % 2}'}, iters=2))
    if types[0] in ('allreduce', 'reduce'): cases += several_sockets(rng, 120 if ck.thorough else 10, types)
    return cases

def results(types, nq=60, nt=1500):
    def f(ck):
        ck.build(36 if ck.thorough else 20)
        ck.judge(results_cases(ck, types, nq, nt))
        return ck.finish(ASSUME)
    return f
ASSUME = ['the simulated MPI and System V shared memory of /verif/sim stand for the real ones', 'sequentially consistent data accesses between synchronisations (x86 total store order)', 'up to 12 processes']

def several_sockets(rng, k, types=('allreduce', 'reduce'), **kw):
    """one node whose processes the measurements divide over two or four sockets (in about every second case)"""
    cases = []
    for i in range(k):
        n = rng.choice([2, 4, 4, 4, 6, 8]); d = gen_coll(rng, types[i % len(types)], n, n, 'auto', small=True, count=rng.choice([1, 2, 5, 8, 9, 30, 65]))
        cases.append(single(rng, n, n, d, iters=rng.choice([2, 3]), **kw))
    return cases

def some_coll(rng, n, ppn, tune=None, small=True, types=TYPES, **kw):
    return gen_coll(rng, rng.choice(types), n, ppn, tune or rng.choice(['fixed', 'random', 'random']), small=small, **kw)

def every_shape(ck, iters, sh=((2, 2), (3, 3), (4, 2), (4, 4), (3, 1), (6, 3), (8, 2)), **kw):
    """every collective within one node, over several nodes and with one process per node, alternating and not"""
    rng = ck.rng; cases = []
    for i, (t, alt, (n, p)) in enumerate((t, a, s) for t in TYPES for a in (0, 1) for s in sh):
        if not ck.thorough and i % len(sh) not in (0, 1, 2) and rng.random() < .7: continue
        d = gen_coll(rng, t, n, p, 'fixed', count=rng.choice([1, 2, 3, 5, 40]))
        d['info'] = '|'.join(([d['info']] if 'info' in d else []) + [f'ext_mpi_alternating:{alt}'])
        cases.append(single(rng, n, p, d, iters=iters, sched=rng.choice(['rand', 'prio', 'prio', 'seq', 'rseq']), **kw))
    return cases

def c08(ck):
    """iterations do not mix"""
    ck.build(); rng = ck.rng; cases = []
    for i in range(900 if ck.thorough else 66):
        n, p = rng.choice(shapes(8 if ck.thorough else 6, 2)); t = TYPES[i % len(TYPES)]
        d = gen_coll(rng, t, n, p, rng.choice(['fixed', 'random', 'random', 'random', 'auto']), small=rng.random() < .8)
        cases.append(single(rng, n, p, d, iters=rng.choice([3, 4, 5])))
    cases += several_sockets(rng, 100 if ck.thorough else 8)
    cases += every_shape(ck, 4)
    ck.judge(cases)
    return ck.finish(ASSUME)

def c09(ck):
    """every call returns, nothing is left over"""
    ck.build(); rng = ck.rng; cases = []; only = ['deadlock', 'leftover', 'trunc']
    for i in range(1200 if ck.thorough else 70):
        n, p = rng.choice(shapes(12 if ck.thorough else 9)); t = TYPES[i % len(TYPES)]
        d = gen_coll(rng, t, n, p, rng.choice(['fixed', 'random', 'random', 'random', 'auto']), small=rng.random() < .7)
        cases.append(single(rng, n, p, d, iters=2, only=only, net=rng.choice(['rdv', 'rdv', 'mixed', 'eager'])))
    for i in range(200 if ck.thorough else 24):
        n, p = rng.choice(shapes(6, 2))
        colls = {k: some_coll(rng, n, p) for k in range(rng.choice([1, 2]))}
        cases.append(multi_case(rng, n, p, colls, {0: list(range(n))}, 2, only=only))
    cases += several_sockets(rng, 100 if ck.thorough else 12, only=only)
    ck.judge(cases, outcomes={'deadlock', 'hang', 'mpierror', 'toolong', 'crash'}, bad=False, touched=False)
    tiny(ck, only, 10 if not ck.thorough else 60)
    return ck.finish(ASSUME)

def tiny(ck, only, k):
    """all interleavings of tiny programs"""
    rng = ck.rng; cases = []
    for i in range(k):
        t = TYPES[i % len(TYPES)]; n, p = rng.choice([(2, 1), (2, 2)] + ([(3, 1), (3, 3)] if ck.thorough else []))
        d = gen_coll(rng, t, n, p, 'fixed', count=rng.choice([1, 2])); 
        if 'counts' in d: d['counts'] = ','.join(['1'] * n)
        cases.append(single(rng, n, p, d, iters=1, only=only, jitter=False))
    ck.judge(cases, outcomes={'deadlock', 'hang', 'mpierror', 'toolong', 'crash'}, bad=False, touched=False, cfg='ScheduleAll.cfg', maxops=150)

def c10(ck):
    ck.build(); rng = ck.rng; cases = []
    for i in range(700 if ck.thorough else 60):
        n, p = rng.choice(shapes(6, 2)); k = rng.choice([2, 2, 3])
        colls = {}; comms = {0: list(range(n))}; derive = undo = None
        dup = rng.random() < .4
        if dup: comms[1] = list(range(n)); derive = lambda r: 'dup 1 0;'; undo = lambda r: 'cfree 1;'
        for j in range(k):
            colls[j] = some_coll(rng, n, p)
            if dup and rng.random() < .5: colls[j]['comm'] = 1
        cases.append(multi_case(rng, n, p, colls, comms, 2, derive, undo))
    for i in range(200 if ck.thorough else 16): cases.append(crowd(rng, i))
    ck.judge(cases)
    return ck.finish(ASSUME)

def crowd(rng, i):
    """many collectives: beyond the size of the tables, or on overlapping communicators created and used unevenly"""
    if i % 4 == 0:
        n, p = rng.choice([(2, 1), (2, 2), (3, 1)])
        return crowd_case(rng, n, p, {0: list(range(n))}, None, None, rng.choice([56, 60, 104]), blocks=6, first=rng.choice([2, 10, 49]), key='crowd ')
    n = rng.choice([3, 4, 4, 5]); p = rng.choice([1, 1, 1, n]); comms = {0: list(range(n))}; uneven = i % 4 < 3
    if uneven:      # one process has taken part in more collectives than the others
        p = 1; a = rng.randrange(n); comms[1] = [a]; comms[2] = [r for r in range(n) if r != a]
    else:
        for c in range(1, rng.choice([3, 4])): comms[c] = sorted(rng.sample(range(n), rng.randint(2, max(2, n - 1))))
    derive = lambda r: ''.join(f'split {c} 0 {0 if r in comms[c] else -1} {r};' for c in sorted(comms) if c)
    undo = lambda r: ''.join(f'cfree {c};' for c in sorted(comms) if c and r in comms[c])
    return crowd_case(rng, n, p, comms, derive, undo, rng.choice([8, 11] if uneven else [6, 9, 12]), skew=rng.choice([1, 2, 3, 4] if uneven else [0, 4, 10]), on=(1, (0, 2)) if uneven else None, key='crowd ')

def api_log(log):
    """the simulator's log of one run as the events of Requests.tla"""
    ev = []; pers = {}
    for x in log:
        p, k = x[0], x[1]
        if k == 'start': ev.append([p, 'start', x[2] + 1])
        elif k == 'post': ev.append([p, 'post', x[2], x[3], x[4], x[5], 0])
        elif k == 'uinit': pers[p, x[2]] = [x[2], x[3], x[4], x[5], 1]
        elif k == 'ustart': ev.append([p, 'post'] + pers[p, x[2]])
        elif k == 'callbegin' and x[2] == 'startall':
            for r in x[3]: ev.append([p, 'start', r] if r < 100 else [p, 'post'] + pers[p, r])
        elif k == 'call' and x[2] != 'startall': ev.append([p, 'call', x[2], x[3], x[4], x[5], x[6]])
    return ev

def requests_judge(ck, cases):
    """the logs of finished scenarios against Requests.tla"""
    todo = [c for c in cases if c.res['outcome'] == 'ok']
    J = []
    for c in todo:
        cl = []
        for i in sorted(c.colls):
            d = c.colls[i]; m = c.members[int(d.get('comm', 0))]; mt = conv.coll_meta(d, m)
            cl.append({'type': d['type'], 'root': mt['root'], 'counts': mt['counts'], 'members': m})
        J.append({'n': c.meta['n'], 'colls': cl, 'log': api_log(c.res['log'])})
    if not J: return
    f = os.path.join(ck.dir, 'api.json'); json.dump(J, open(f, 'w'))
    rc, out = ck.tlc('Requests', 'RequestsTrace.cfg', {'VP_CASES': f})
    v = vp.verdicts(out)
    if len(v) != len(J): raise RuntimeError('TLC: %d verdicts of %d: %s' % (len(v), len(J), out[-1500:]))
    ck.cov['traces_validated_against_impl'] += len(J)
    ck.cov['api_events_checked'] = ck.cov.get('api_events_checked', 0) + sum(len(j['log']) for j in J)
    for k, c in enumerate(todo):
        c.api = v[k + 1]
        if '"ok"' not in c.api: ck.violation(c, 'completion calls: ' + c.api)

def c11(ck):
    """truthful completion"""
    ck.build(); rng = ck.rng
    rc, out = ck.tlc('Requests', 'RequestsModel.cfg', {})
    if 'No error has been found' not in out: raise RuntimeError('the model of the completion calls fails: ' + out[-2000:])
    rc, out = ck.tlc('Requests', 'RequestsScripts.cfg', {})
    scripts = [json.loads(json.loads(l[l.index('"'):] if l.startswith('"') else l)[9:]) for l in out.split('\n') if '@@SCRIPT' in l]
    ck.cov['scripts_of_the_specification'] = len(scripts)
    scripts.sort(); rng.shuffle(scripts)
    if not ck.thorough: scripts = scripts[:1500]
    per = 10; cases = []
    groups = [scripts[i:i + per] for i in range(0, len(scripts), per)]
    if ck.thorough: groups = groups * 3
    for g in groups: cases.append(call_scripts(rng, g))
    ck.judge(cases)
    requests_judge(ck, cases)
    return ck.finish(ASSUME)

def call_scripts(rng, group):
    n, p = rng.choice([(2, 1), (2, 2), (2, 2), (3, 1), (3, 3), (4, 2), (4, 4)])
    colls = {0: gen_coll(rng, rng.choice(TYPES), n, p, 'fixed', small=True, count=rng.choice([1, 3, 8])), 1: gen_coll(rng, rng.choice(TYPES), n, p, 'fixed', small=True, count=rng.choice([1, 3, 8]))}
    t = rng.randrange(n); q = rng.choice([r for r in range(n) if r != t]); late = []
    for _ in group: late.append([rng.choice([0, 0, 1, 20, 300, 1500]) if rng.random() < .7 else 0 for r in range(n)])
    order = [rng.sample([0, 1], 2) for _ in group]; snd = [rng.random() < .4 for _ in group]; pers = rng.random() < .4; alls = [rng.random() < .3 for _ in group]
    fin = [rng.choice(['waitall', 'waitany', 'waitsome', 'testany', 'testsome', 'testall', 'waitall_st', 'waitany_st', 'testsome_st', 'testall_st', 'waitsome_st']) for _ in group]
    other = [[rng.choice(['testany', 'testsome', 'testsome_st', 'testany_st']) for _ in group] for r in range(n)]
    def a(x, u): return 'n' if x == 0 else str(x - 1) if x < 100 else f'u{u}'
    rounds = []
    def body(r):
        s = 'init 0;init 1;'
        if pers and r in (t, q): s += f'uinit 0 {int(r == q)} {q if r == t else t} 5 16 0;'
        for k, sc in enumerate(group):
            u = 0 if pers else k
            s += f'uw 0 {k};uw 1 {k};'
            if not pers and r in (t, q):
                sending = snd[k] == (r == t)
                s += f'{"usend" if sending else "urecv"} {u} {q if r == t else t} {100 + k} 16 0;'
            s += f'yield {late[k][r]};'
            if pers and r in (t, q): s += f'call startall {order[k][0]} u0 {order[k][1]};'
            elif alls[k]: s += f'call startall {order[k][0]} {order[k][1]};'
            else: s += f'start {order[k][0]};' + (f'yield {rng.choice([1, 5, 20, 80, 300])};' if rng.random() < .5 else '') + f'start {order[k][1]};'
            if r == t:
                for fn, args in sc: s += f'call {fn}{rng.choice(["", "", "_st"])} ' + ' '.join(a(x, u) for x in args) + ';' + (f'yield {rng.choice([1, 50])};' if rng.random() < .2 else '')
                s += f'drain {fin[k]} 1 u{u} 0;' + f'call testany 0 u{u} 1;'
            else: s += f'drain {other[r][k]} 0 1' + (f' u{u}' if r == q else '') + ';'
            if r in (t, q) and not pers and snd[k] != (r == t): s += f'ucheck {u} {q if r == t else t} {100 + k};'
            s += f'ur 0 {k};ur 1 {k};'
        if pers and r in (t, q): s += 'ufree 0;'
        return s + 'free 1;free 0;'
    return program(rng, n, p, colls, {0: list(range(n))}, body, sched=rng.choice(['rand', 'rand', 'rr']), net=rng.choice(['rdv', 'eager']), extra=f'log=1 pollex={rng.choice([0, 50, 100, 100])}', key=f'calls n={n} ppn={p} tested={t} partner={q} {group[0]} {colls}', meta={'n': n})

def hist_lines(out):
    """histories printed by a specification"""
    return [json.loads(json.loads(l)[7:]) for l in out.split('\n') if l.startswith('"@@HIST')]

def maximal(hs):
    """histories that are not the beginning of another one"""
    pre = set()
    for h in hs:
        for i in range(len(h)): pre.add(json.dumps(h[:i]))
    return sorted((h for h in hs if json.dumps(h) not in pre), key=json.dumps)

def c14(ck):
    """requests belong to the right collective through any history"""
    ck.build(); rng = ck.rng
    def model(cfg, extra=(), workers=vp.NCPU):
        rc, out = ck.tlc('Handles', cfg, {}, workers=workers, extra=extra)
        if 'No error has been found' not in out and '-simulate' not in extra or 'is violated' in out or 'Error:' in out: raise RuntimeError('the model of the table fails: ' + out[-2000:])
        return out
    wide = maximal(hist_lines(model('HandlesWide.cfg'))); full = maximal(hist_lines(model('HandlesFull.cfg')))
    D = 90 if ck.thorough else 50
    out = model('HandlesWalk.cfg', ('-simulate', f'num={1200 if ck.thorough else 90}', '-depth', str(D), '-seed', str(ck.seed)), workers=1)
    walks = [h for h in hist_lines(out) if len(h) == D - 1]
    by = {}
    for h in walks: by.setdefault(json.dumps(h[:-1]), h)      # one of the last steps of every walk
    walks = sorted(by.values(), key=json.dumps)
    ck.cov['histories_of_the_specification'] = len(wide) + len(full) + len(walks)
    rng.shuffle(wide); rng.shuffle(full); rng.shuffle(walks)
    if not ck.thorough: wide = wide[:1800]; full = full[:400]
    cases = []
    for hs, homes, fill, n in ((wide, [254, 254, 255, 0], 0, 12), (full, [255, 255, 252, 253], 252, 4), (walks[::2], [255, 255, 252, 253], None, 4), (walks[1::2], [255, 255, 254, 0], 0, 12)):
        for i in range(0, len(hs), n): cases.append(handles_case(rng, hs[i:i + n], homes, rng.choice([252, 255, 255, 508]) if fill is None else fill))
    ck.run_sims(cases, timeout=60)
    J = []; who = []
    for c in cases:
        if c.res['outcome'] != 'ok': ck.violation(c, c.res['outcome'] + ': ' + c.res['msg']); continue
        for r in range(c.meta['n']):
            log = []; m = c.meta['keyof'][r]; own = {}
            for x in c.res['log']:
                if x[0] != r: continue
                if x[1] == 'hcreate': own[x[3]] = x[2]; log.append(['create', x[2], x[3]])
                elif x[1] == 'hfree': log.append(['free', x[2], 0])
                elif x[1] == 'use': log.append(['use', own[x[2] + 1], x[3], x[4], x[5], x[6]])
                elif x[1] in ('useu', 'once'): log.append([x[1], x[2], x[3], x[4], x[5], x[6]])
            J.append({'keys': m, 'log': log}); who.append((c, r))
    f = os.path.join(ck.dir, 'h.json'); json.dump(J, open(f, 'w'))
    rc, out = ck.tlc('Handles', 'HandlesTrace.cfg', {'VP_CASES': f})
    v = vp.verdicts(out)
    if len(v) != len(J): raise RuntimeError('TLC: %d verdicts of %d: %s' % (len(v), len(J), out[-1500:]))
    ck.cov['traces_validated_against_impl'] += len(J)
    seen = set()
    for k, (c, r) in enumerate(who):
        if '"ok"' not in v[k + 1] and id(c) not in seen: seen.add(id(c)); ck.violation(c, f'process {r}: ' + v[k + 1])
    ck.samples = [{'history': h} for h in (wide[:2] + full[:2] + walks[:1])]
    return ck.finish(['the simulated MPI of /verif/sim hands out the request values the histories ask for', 'four values at a time besides up to 252 others', 'collectives of one process each: which process they run on does not matter to the table'])

def handles_case(rng, hs, homes, fill):
    n = len(hs); K = len(homes); L = [f'world n={n} ppn=1 seed={rng.randrange(10**6)} sched=seq net=eager record=0 log=1']; keyof = []
    types = [rng.choice(['allreduce', 'allreduce', 'allgather', 'reduce_scatter_block', 'gather', 'scatter', 'reduce']) for _ in range(K)]
    for c in range(K): L.append(f'coll {c} type={types[c]} count={c + 1} dt={rng.choice(["int", "long", "double"])} comm=1')
    for i in range(fill): L.append(f'coll {100 + i} type=allreduce count=1 dt=long comm=1')
    for r, h in enumerate(hs):
        s = f'mpiinit;setint ext_mpi_debug 0;split 1 0 {r} 0;'; own = {}; coll = {}; user = set()
        order = rng.sample(range(fill), fill); mark = order[:3]
        keys = {i: K + 1 + j for j, i in enumerate(mark)}; keyof.append(K + len(mark))
        for i in order: s += f'rv {i % 256} {7 - i // 256};init {100 + i};' + (f'note hcreate {keys[i]} {101 + i};' if i in keys else '')
        def place(k): return f'rv {homes[k - 1]} {k};'
        def create(k, c): own[k] = c; coll[c] = k; return place(k) + f'init {c - 1};note hcreate {k} {c};'
        def free(k): c = own.pop(k); coll.pop(c); return f'free {c - 1};note hfree {k};'
        for a, k, c in h:
            if a == 'create': s += create(k, c)
            elif a == 'free': s += free(k)
            elif a == 'uinit': user.add(k); s += place(k) + f'pr {k};'
            elif a == 'ufree': user.discard(k); s += f'ufree {k};'
            elif a == 'once': s += place(k) + f'ir {k};once {k};'
            if len(h) > 30 and rng.random() < .3:
                k = rng.randrange(1, K + 1)
                if k in own: s += f'use {own[k] - 1};'
                elif k in user: s += f'useu {k};'
        for k in range(1, K + 1):          # whom does every value belong to now?
            if k in own: s += f'use {own[k] - 1}{rng.choice(["", " t"])};'
            elif k in user: s += f'useu {k};ufree {k};'
            else: s += place(k) + (f'pr {k};useu {k};ufree {k};' if rng.random() < .5 else f'ir {k};once {k};')
        for i in mark: s += f'use {100 + i};'
        left = [f'free {own[k] - 1};' for k in own] + [f'free {100 + i};' for i in range(fill)]; rng.shuffle(left)
        L.append(f'rank {r}: ' + s + ''.join(left) + 'mpifin')
    return vp.Case(f'handles fill={fill} {hs[0]}', L, {}, {}, tlc=False, meta={'n': n, 'keyof': keyof})

def resource_case(rng, h, ncomms, maxn):
    """one history of creations, executions and releases on several processes, with snapshots at quiescent points"""
    n, p = rng.choice(shapes(maxn)); ncoll = max([x for o, x in h if o in ('create', 'run', 'free')] + [1])
    mem = {0: list(range(n))}
    # communicators of whole nodes with everything chosen by the user: what a collective needs is fixed; otherwise it may depend on measurements
    exact = rng.random() < .8
    for k in range(1, ncomms + 1):
        if exact: mem[k] = [x * p + i for x in sorted(rng.sample(range(n // p), rng.randrange(1, n // p + 1))) for i in range(p)]
        else: mem[k] = rng.sample(range(n), rng.randrange(1, n + 1))
    colls = {}
    for c in range(1, ncoll + 1):
        k = c % (ncomms + 1)
        if k == 0: d = some_coll(rng, n, p)
        elif exact: d = some_coll(rng, len(mem[k]), p); d['comm'] = k
        else: d = gen_coll(rng, rng.choice(TYPES), len(mem[k]), 1, 'auto', small=True); d.pop('info', None); d['comm'] = k
        colls[c] = d
    hist = [list(x) for x in h]; live = set(); opn = set()
    for o, x in hist:
        if o == 'create': live.add(x)
        elif o == 'free': live.discard(x)
        elif o == 'cmake': opn.add(x)
        elif o == 'cfree': opn.discard(x)
    tail = [['free', c] for c in live] + [['cfree', k] for k in opn]; rng.shuffle(tail); hist += tail
    snaps = [i for i in range(len(hist) - 1) if rng.random() < .6] + [len(hist) - 1]
    L = [world(rng, n, p, sched=rng.choice(['rand', 'rand', 'seq', 'rseq', 'prio']), extra='log=1').replace('record=1', 'record=0')] + [gen.coll_line(c, d) for c, d in colls.items()]
    how = [rng.choice(['wait', 'wait', 'waitall']) for _ in hist]
    for r in range(n):
        s = 'mpiinit;setint ext_mpi_debug 0;sync 1;snap 0;sync 2;'; it = {c: 0 for c in colls}
        for i, (o, x) in enumerate(hist):
            k = x % (ncomms + 1) if o in ('create', 'run', 'free') else x
            if o == 'cmake': s += f'split {x} 0 {0 if r in mem[x] else -1} {mem[x].index(r) if r in mem[x] else 0};'
            elif r not in mem[k]: pass
            elif o == 'cfree': s += f'cfree {x};'
            elif o == 'create': s += f'init {x};'
            elif o == 'free': s += f'free {x};'
            else: s += f'uw {x} {it[x]};start {x};{how[i]} {x};ur {x} {it[x]};'; it[x] += 1
            if rng.random() < .3: s += f'yield {rng.choice([1, 20, 200])};'
            if i in snaps: s += f'sync {10 + 2 * i};snap {i + 1};sync {11 + 2 * i};'
        L.append(f'rank {r}: ' + s + 'mpifin')
    return vp.Case(f'history n={n} ppn={p} {hist} communicators {mem} ' + '; '.join(f'{i}:' + ','.join(f'{a}={b}' for a, b in d.items()) for i, d in colls.items()), L, colls, mem, tlc=False,
                   meta={'n': n, 'exact': int(exact), 'hist': hist, 'snaps': snaps, 'members': [mem[c % (ncomms + 1)] for c in range(1, ncoll + 1)], 'cmembers': [mem[k] for k in range(1, ncomms + 1)]})

def c15(ck):
    """resources"""
    ck.build(); rng = ck.rng
    for cfg in ('ResourcesTwo.cfg', 'ResourcesThree.cfg', 'ResourcesComm.cfg'):
        rc, out = ck.tlc('Resources', cfg, {})
        if 'No error has been found' not in out: raise RuntimeError('the model of the resources fails: ' + out[-2000:])
    rc, out = ck.tlc('Resources', 'ResourcesHist.cfg', {}); short = maximal(hist_lines(out))
    rc, out = ck.tlc('Resources', 'ResourcesWalk.cfg', {}, workers=1, extra=('-simulate', f'num={800 if ck.thorough else 100}', '-depth', '15', '-seed', str(ck.seed)))
    by = {}
    for h in hist_lines(out):
        if len(h) == 14: by.setdefault(json.dumps(h[:-1]), h)
    walks = sorted(by.values(), key=json.dumps); ck.cov['histories_of_the_specification'] = len(short) + len(walks)
    rng.shuffle(short); rng.shuffle(walks)
    # and the same step again and again: nothing accumulates
    cyc = [[['cmake', 1]] + [x for _ in range(6) for x in (['create', 1], ['run', 1], ['free', 1])], [['create', 2]] + [x for _ in range(5) for x in (['cmake', 1], ['create', 1], ['cfree', 1], ['run', 1], ['free', 1])]]
    cases = [resource_case(rng, h, 1, 8 if ck.thorough else 6) for h in (short if ck.thorough else short[:180]) + cyc * (60 if ck.thorough else 20)]
    cases += [resource_case(rng, h, 2, 8 if ck.thorough else 6) for h in walks[:800 if ck.thorough else 80]]
    ck.run_sims(cases); J = []; todo = []
    for c in cases:
        r = c.res; m = c.meta
        if r['outcome'] != 'ok': ck.violation(c, r['outcome'] + ': ' + r['msg']); continue
        if r['bad']: ck.violation(c, 'wrong data: ' + r['badfirst']); continue
        sn = {}
        for x in r['log']:
            if x[1] == 'snap': sn.setdefault(x[2], {})[x[0]] = x
        def snap(i): v = sn[i]; return ['snap', [[v[q][5], v[q][6], v[q][7], v[q][3]] for q in range(m['n'])], v[0][8]]
        log = [snap(0)]
        for i, (o, x) in enumerate(m['hist']):
            log.append([o, x])
            if i in m['snaps']: log.append(snap(i + 1))
        log.append(['end', [[l[2], l[3], l[4], l[0]] for l in r['live']], r['shm'][0] - r['shm'][1]])
        J.append({'n': m['n'], 'exact': m['exact'], 'members': m['members'], 'cmembers': m['cmembers'], 'log': log}); todo.append(c)
    f = os.path.join(ck.dir, 'r.json'); json.dump(J, open(f, 'w'))
    rc, out = ck.tlc('Resources', 'ResourcesTrace.cfg', {'VP_CASES': f}); v = vp.verdicts(out)
    if len(v) != len(J): raise RuntimeError('TLC: %d verdicts of %d: %s' % (len(v), len(J), out[-1500:]))
    ck.cov['traces_validated_against_impl'] += len(J); ck.cov['snapshots_compared'] = sum(e[0] in ('snap', 'end') for j in J for e in j['log'])
    for i, c in enumerate(todo):
        if '"ok"' not in v[i + 1]: ck.violation(c, v[i + 1])
    ck.samples = [{'history': c.meta['hist']} for c in cases[:2] + cases[-2:]]
    return ck.finish(ASSUME + ['resources are compared when no process is inside a call', 'the memory counted is what the library and the C library on its behalf take from malloc'])

def near_overflow(rng): return rng.choice([2147483647 - rng.randrange(12), 2147483647 - rng.randrange(12), -1 - rng.randrange(8), -2147483648, 1, rng.randrange(-2**31, 2**31)])

def barrier_cases(rng, k, maxn):
    """rounds of the single barriers of the code"""
    cases = []
    for i in range(k):
        n = rng.randrange(2, maxn + 1); L = rng.randrange(2, 7)
        prog = ''.join(rng.choice('sssnn' + ''.join(str(d) for d in range(1, n))) for _ in range(L)); base = near_overflow(rng)
        hows = [rng.choice(['w', 't', ''.join(rng.choice('wt') for _ in prog)]) for _ in range(n)] if rng.random() < .8 else ['w'] * n
        sched = rng.choice(['rand', 'rand', 'rand', 'rr'] if 't' in ''.join(hows) else ['rand', 'prio', 'seq', 'rseq', 'rr'])      # polling needs a fair schedule
        lines = [f'world n={n} ppn={n} seed={rng.randrange(10**6)} sched={sched} stale={rng.choice([0, 1, 2])} record=0 log=1 maxsteps=400000']
        for r in range(n): lines.append(f'rank {r}: pbar {prog} {base} {hows[r]}')
        waits = [[list(range(n)) if c in 'sn' else [(p + int(c)) % n] for p in range(n)] for c in prog]
        cases.append(vp.Case(f'barriers n={n} {prog} from {base} {hows}', lines, {}, {}, tlc=False, meta={'n': n, 'waits': waits}))
    return cases

def c18(ck):
    """barriers"""
    ck.build(); rng = ck.rng
    for cfg in ['BarrierTwo.cfg', 'BarrierThree.cfg', 'BarrierThreeMix.cfg', 'BarrierFour.cfg', 'BarrierFiveWait.cfg']:
        rc, out = ck.tlc('Barrier', cfg, {})
        if 'No error has been found' not in out: raise RuntimeError('the model of the barriers fails: ' + out[-2000:])
    # the barriers one by one
    cases = barrier_cases(rng, 6000 if ck.thorough else 600, 8)
    ck.run_sims(cases, timeout=60)
    if all(c.res['outcome'] == 'noprobe' for c in cases): ck.notes.append('the barriers of the code are not accessible one by one: only through the collectives'); cases = []
    J = []; todo = []
    for c in cases:
        if c.res['outcome'] not in ('ok',): ck.violation(c, c.res['outcome'] + ': ' + c.res['msg']); continue
        J.append({'n': c.meta['n'], 'waits': c.meta['waits'], 'log': [x[:3] for x in c.res['log']]}); todo.append(c)
    if J:
        f = os.path.join(ck.dir, 'b.json'); json.dump(J, open(f, 'w'))
        rc, out = ck.tlc('Barrier', 'BarrierTrace.cfg', {'VP_CASES': f}); v = vp.verdicts(out)
        if len(v) != len(J): raise RuntimeError('TLC: %d verdicts of %d: %s' % (len(v), len(J), out[-1500:]))
        ck.cov['traces_validated_against_impl'] += len(J)
        for i, c in enumerate(todo):
            if '"ok"' not in v[i + 1]: ck.violation(c, v[i + 1])
    # collectives whose counters overflow: a first run tells how far one execution counts, the overflow must not come before the
    # second one (a counter is zero until it is used for the first time)
    scouts = []
    for i in range(700 if ck.thorough else 75):
        n, p = rng.choice([(n, p) for n, p in shapes(8 if ck.thorough else 6, 2) if p > 1]); d = some_coll(rng, n, p)
        c = single(rng, n, p, d, iters=1, net='eager', tlc=False); c.meta = {'n': n, 'p': p, 'd': d}; scouts.append(c)
    def count(c):
        c.E = max([o[8] for p in c.res.get('progs', []) for o in p if o[0] == 'W'] + [0])
        for k in ('progs', 'regions'): c.res.pop(k, None)
    ck.run_sims(scouts, post=count); cases = []
    for c in scouts:
        if c.res['outcome'] != 'ok' or not 0 < c.E < 1000: continue
        n, p, d = c.meta['n'], c.meta['p'], c.meta['d']
        cases.append(multi_case(rng, n, p, {0: d}, {0: list(range(n))}, rng.choice([4, 5]), extra=f'bstart={2147483648 - c.E - rng.randrange(2 * c.E)}', key='overflow '))
    ck.cov['collectives_with_overflowing_counters'] = len(cases)
    ck.judge(cases)
    return ck.finish(ASSUME + ['model: 2 to 5 processes, 2 or 3 rounds, counters modulo 8 to 16 that overflow; the counters of the code have 32 bits'])

def c12(ck):
    """user memory"""
    ck.build(); rng = ck.rng; cases = []; only = ['sendbuf', 'buffer']
    for i in range(1200 if ck.thorough else 88):
        n, p = rng.choice(shapes(10 if ck.thorough else 8)); t = TYPES[i % len(TYPES)]
        d = gen_coll(rng, t, n, p, rng.choice(['fixed', 'random', 'random', 'auto']), small=rng.random() < .6)
        cases.append(single(rng, n, p, d, iters=2, only=only))
    for i in range(200 if ck.thorough else 24):        # with the self-check of the initialisation, which is on by default
        n, p = rng.choice(shapes(8 if ck.thorough else 5)); t = TYPES[i % len(TYPES)]
        cases.append(single(rng, n, p, gen_coll(rng, t, n, p, rng.choice(['fixed', 'random', 'auto']), small=True), iters=1, debug=True, only=['sendbuf']))
    ck.judge(cases, outcomes={'crash', 'oob'}, bad=False)
    return ck.finish(ASSUME)

def c13(ck):
    """races on shared memory"""
    ck.build(); rng = ck.rng; cases = []; only = ['race', 'overlap']
    for i in range(900 if ck.thorough else 66):
        n, p = rng.choice([s for s in shapes(10 if ck.thorough else 8, 2) if s[1] > 1 or rng.random() < .3]); t = TYPES[i % len(TYPES)]
        d = gen_coll(rng, t, n, p, rng.choice(['fixed', 'random', 'random', 'auto']), small=rng.random() < .8)
        cases.append(single(rng, n, p, d, iters=rng.choice([1, 2, 3]), only=only))
    for i in range(100 if ck.thorough else 12):
        n, p = rng.choice([s for s in shapes(6, 2) if s[1] > 1])
        cases.append(multi_case(rng, n, p, {k: some_coll(rng, n, p) for k in range(2)}, {0: list(range(n))}, 2, only=only))
    cases += several_sockets(rng, 100 if ck.thorough else 16, only=only)
    cases += every_shape(ck, 3, ((2, 2), (4, 4), (4, 2), (3, 3), (6, 3)), only=only)
    ck.judge(cases, outcomes=set(), bad=False, touched=False)
    return ck.finish(ASSUME)

def c16(ck):
    """tuning: the same collective under many settings of every documented knob"""
    ck.build(); rng = ck.rng; cases = []
    for i in range(120 if ck.thorough else 33):
        n, p = rng.choice(shapes(9 if ck.thorough else 8, 2)); t = rng.choice(TYPES) if ck.thorough else TYPES[i % len(TYPES)]
        base = gen_coll(rng, t, n, p, 'auto', small=True); base.pop('info', None)
        for j in range(10 if ck.thorough else 7):
            d = dict(base); q = p
            if p > 1 and j in (3, 4, 6): q = rng.choice([y for y in range(1, p + 1) if p % y == 0])      # EXT_MPI_NUM_TASKS_PER_SOCKET: the nodes as several smaller ones
            x = gen_coll(rng, t, n, q, 'random' if j % 5 else 'auto', count=base['count'], root=base.get('root'))
            if 'info' in x and j != 5: d['info'] = x['info']
            env = tuning_env(rng, t, n, q) if j % 2 or j in (0, 6) else {}
            if q != p:
                if 'tasks_per_socket' in x.get('info', ''): d.pop('info', None)       # one of both places only
                env['EXT_MPI_NUM_TASKS_PER_SOCKET'] = str(q)
            if 'tasks_per_socket' in d.get('info', ''):       # the values in the environment are for whole nodes
                for k in ('EXT_MPI_NUM_PORTS', 'EXT_MPI_COPYIN', 'EXT_MPI_NOT_RECURSIVE'): env.pop(k, None)
            if env.get('EXT_MPI_NUM_PORTS'): d['info'] = '|'.join(q for q in d.get('info', '').split('|') if q and not q.startswith('ext_mpi_num_ports') and not q.startswith('ext_mpi_not_rec')) or 'x:y'
            cases.append(single(rng, n, p, d, iters=1, env=env, debug=j == 1, only=[x for x in vp.ALL if x != 'buffer' or j != 1]))      # the self-check of bcast borrows the buffer and gives it back unchanged
    ck.judge(cases)
    return ck.finish(ASSUME)

def tuning_env(rng, t, n, p):
    e = {}
    if rng.random() < .5: e['EXT_MPI_ALTERNATING'] = rng.choice(['0', '1'])
    if rng.random() < .3: e['EXT_MPI_NOT_RECURSIVE'] = '1'
    if rng.random() < .5:
        ci = copyin(rng, p)
        if ci: e['EXT_MPI_COPYIN'] = ci.replace('_', ' ')
    if rng.random() < .2: e['EXT_MPI_VERBOSE'] = '1'
    if rng.random() < .2: e['EXT_MPI_DEBUG'] = rng.choice(['0', '1'])
    if rng.random() < .3:
        pp = ports(rng, t, n // p)
        if pp: e['EXT_MPI_NUM_PORTS'] = pp[0].replace('_', ' '); e['NR'] = '1' if not pp[1] else '0'
    if e.pop('NR', '0') == '1': e['EXT_MPI_NOT_RECURSIVE'] = '1'
    if t == 'bcast' and n == p: e.pop('EXT_MPI_NOT_RECURSIVE', None)
    return e

def c17(ck):
    """the order of additions"""
    ck.build(); rng = ck.rng; cases = []
    for i in range(700 if ck.thorough else 64):
        n, p = rng.choice(shapes(12 if ck.thorough else 9, 2)); t = ('allreduce', 'allreduce', 'reduce', 'reduce_scatter', 'reduce_scatter_block')[i % 5]
        d = gen_coll(rng, t, n, p, rng.choice(['fixed', 'random', 'random', 'auto']), dts=('float', 'double'), small=rng.random() < .8)
        tree = 1; nodes = n // p
        for x in d.get('info', '').split('|'):            # a node treated as several smaller ones
            if x.startswith('ext_mpi_num_tasks_per_socket:'): nodes = n // int(x.split(':')[1])
        if t == 'allreduce' and rng.random() < .6 and nodes > 1:
            # a reduce-scatter followed by an allgather between the nodes: every element is summed in one place
            s = rng.choice(seqs(nodes)); pr = 1
            for f in s: pr *= f
            info = [x for x in d.get('info', '').split('|') if x and not x.startswith('ext_mpi_num_ports') and not x.startswith('ext_mpi_not_rec')]
            info += ['ext_mpi_num_ports:%d(%s)' % (nodes, '_'.join(str(x) for x in [-(f - 1) for f in reversed(s)] + [f - 1 for f in s])), 'ext_mpi_not_recursive:%d' % (pr != nodes or rng.random() < .5)]
            d['info'] = '|'.join(info); tree = 2
        cases.append(single(rng, n, p, d, iters=3, tree=tree, only=['tree', 'value']))
    ck.judge(cases, touched=False)
    return ck.finish(ASSUME)

def c19(ck):
    """user messages on the same communicator"""
    ck.build(); rng = ck.rng; cases = []
    for i in range(500 if ck.thorough else 50):
        n, p = rng.choice(shapes(6, 2)); colls = {k: some_coll(rng, n, p) for k in range(rng.choice([1, 2]))}
        cases.append(user_messages(rng, n, p, colls))
    ck.judge(cases)
    return ck.finish(ASSUME)

def user_messages(rng, n, p, colls):
    order = sorted(colls); tags = [t - m for m, t in enumerate(rng.sample([0, 1, 2, 5, 99, 1000, 4711, 32767], 4))]
    wild = rng.random() < .6; shift = rng.randrange(1, n)
    place = [rng.randrange(5) for _ in range(4)]; jit = {r: random_jit(rng) for r in range(n)}
    lens = [rng.choice([1, 4, 40, 3000]) for _ in range(4)]
    def body(r):
        to = (r + shift) % n; fr = (r - shift) % n; slots = ['', '', '', '', '', '', '']
        waits = ['' for _ in range(7)]
        for m in range(4):
            a = place[m]; b = rng.randrange(a, 6)
            # the receives are posted before or after the sends; wildcard receives only when one message is under way
            wc = wild and m == 0
            slots[a] += f'urecv {2 * m} {-1 if wc else fr} {-1 if wc else tags[m] + m} {lens[m]} 0;' if rng.random() < .5 else ''
            late = f'urecv {2 * m} ' not in slots[a]
            slots[a] += f'usend {2 * m + 1} {to} {tags[m] + m} {lens[m]} 0;'
            if late: slots[b] += f'urecv {2 * m} {-1 if wc else fr} {-1 if wc else tags[m] + m} {lens[m]} 0;'
            waits[b] += f'WAITU {2 * m} {2 * m + 1}|{m}|{fr}|{tags[m] + m};'
        # with a wildcard only that message may be under way until it has been received everywhere
        s = ''
        parts = [''.join(f'init {i};' for i in order), ''.join(f'uw {i} 0;start {i};' for i in order), ''.join(f'wait {i};ur {i} 0;' for i in order),
                 ''.join(f'uw {i} 1;start {i};' for i in order), ''.join(f'wait {i};ur {i} 1;' for i in order), ''.join(f'free {i};' for i in order)]
        if wild:
            m = 0; a = place[0]
            pre = {a: f'urecv 0 -1 -1 {lens[0]} 0;usend 1 {to} {tags[0]} {lens[0]} 0;'}
            post = {min(5, a + 1): f'waitall u0 u1;ucheck 0 {fr} {tags[0]};sync 7;'}
            for k in range(6): s += post.get(k, '') + pre.get(k, '') + jit[r]() + parts[k]
            if a == 5: s += ''
            return s
        for k in range(6):
            s += slots[k] + jit[r]() + parts[k]
        for k in range(6):
            for x in [y for y in waits[k].split(';') if y]:
                q = x.split('|'); u = q[0].split()
                s += f'waitall u{u[1]} u{u[2]};ucheck {u[1]} {q[2]} {q[3]};'
        return s
    return program(rng, n, p, colls, {0: list(range(n))}, body, sched=rng.choice(['rand', 'rand', 'rr']), key=f'user messages wild={wild} shift={shift} n={n} ppn={p} ' + str(colls))

def subcomm(rng, n, p):
    """ranks of a derived communicator, in its order, and how it is made"""
    k = n // p; kind = rng.choice(['rev', 'nodes', 'revnodes', 'permin', 'sub', 'uneven', 'rr', 'any', 'any'])
    if kind == 'rev': return list(range(n - 1, -1, -1)), 'split'
    if kind == 'nodes': return [x * p + i for x in sorted(rng.sample(range(k), rng.randrange(1, k + 1))) for i in range(p)], 'split'
    if kind == 'revnodes': return [x * p + i for x in rng.sample(range(k), rng.randrange(1, k + 1)) for i in range(p)], 'create'
    if kind == 'permin': return [x * p + i for x in range(k) for i in rng.sample(range(p), p)], 'create'
    if kind == 'sub':
        q = rng.randrange(1, p + 1); return [x * p + i for x in range(k) for i in sorted(rng.sample(range(p), q))], 'create'
    if kind == 'uneven': return sorted(rng.sample(range(n), rng.randrange(1, n + 1))), 'create'
    if kind == 'rr': return [x * p + i for i in range(p) for x in range(k)], 'split'
    return rng.sample(range(n), rng.randrange(1, n + 1)), rng.choice(['create', 'split'])

def c21(ck):
    """derived communicators"""
    ck.build(); rng = ck.rng; cases = []
    for i in range(900 if ck.thorough else 72):
        n, p = rng.choice(shapes(9 if ck.thorough else 8, 2)); t = TYPES[i % len(TYPES)]
        mode = 'node' if i % 9 == 4 else rng.choice(['one', 'one', 'one', 'dup', 'two']); lang = rng.random() < .25
        if mode == 'dup':
            colls = {0: gen_coll(rng, t, n, p, 'fixed', small=True), 1: some_coll(rng, n, p)}; colls[0]['comm'] = 1
            cases.append(multi_case(rng, n, p, colls, {0: list(range(n)), 1: list(range(n))}, 2, lambda r: 'dup 1 0;', lambda r: 'cfree 1;', f08=lang)); continue
        if mode == 'node':      # MPI_Comm_split_type: one communicator for every node, its members in any order
            key = rng.sample(range(n), n); members = {x + 1: sorted(range(x * p, x * p + p), key=lambda r: key[r]) for x in range(n // p)}; members[0] = list(range(n)); colls = {}
            for c in sorted(members):
                if c: colls[len(colls)] = dict(gen_coll(rng, t if c == 1 else rng.choice(TYPES), p, 1, 'auto', small=True), comm=c); colls[len(colls) - 1].pop('info', None)
            cases.append(multi_case(rng, n, p, colls, members, 2, lambda r, key=key, p=p: f'splitt {r // p + 1} 0 {key[r]};', lambda r, p=p: f'cfree {r // p + 1};', kinds=('wait', 'waitall', 'test'), f08=lang, key=f'nodes {members} ')); continue
        m, how = subcomm(rng, n, p); members = {0: list(range(n)), 1: m}
        if mode == 'two' and len(m) < n: rest = [r for r in range(n) if r not in m]; rng.shuffle(rest); members[2] = rest; how = 'split'
        colls = {}
        for c in members:
            if c == 0 and not (mode == 'two' and rng.random() < .5): continue
            d = gen_coll(rng, t if c == 1 else rng.choice(TYPES), len(members[c]), 1, 'auto', small=True); d['comm'] = c; d.pop('info', None)
            if c: colls[len(colls)] = d
            else: colls[len(colls)] = dict(d, comm=0)
        def derive(r, m=m, how=how, members=members):
            if how == 'create': return 'create 1 0 ' + ' '.join(map(str, m)) + ';'
            for c in (1, 2):
                if c in members and r in members[c]: return f'split {c} 0 {c} {members[c].index(r)};'
            return 'split 1 0 -1 0;'
        def undo(r, m=m, members=members):
            for c in (1, 2):
                if c in members and r in members[c]: return f'cfree {c};'
            return ''
        cases.append(multi_case(rng, n, p, colls, members, 2, derive, undo, kinds=('wait', 'waitall', 'test'), key=f'members {members} ', f08=lang))
    ck.judge(cases)
    return ck.finish(ASSUME)

FDT = ('f_integer', 'f_real', 'f_double', 'f_integer8', 'f_real8', 'f_integer4', 'f_real4', 'long', 'int', 'float', 'double')
EXT_TYPES = tuple(t for t in TYPES if t not in ('gather', 'scatter'))       # the types EXT_MPI_* offers
def derived(rng, n, p):
    """one communicator besides the world: its members and how the processes make and free it"""
    m, how = subcomm(rng, n, p)
    if how == 'create': return m, (lambda r: 'create 1 0 ' + ' '.join(map(str, m)) + ';'), (lambda r: 'cfree 1;' if r in m else '')
    return m, (lambda r: f'split 1 0 1 {m.index(r)};' if r in m else 'split 1 0 -1 0;'), (lambda r: 'cfree 1;' if r in m else '')

def c20(ck):
    """language and calling interfaces"""
    ck.build(); rng = ck.rng; cases = []; fdt = 0
    for i in range(800 if ck.thorough else 92):
        n, p = rng.choice(shapes(8 if ck.thorough else 6)); t = EXT_TYPES[i // 2 % len(EXT_TYPES)]
        colls = {}; members = {0: list(range(n))}; derive = undo = None
        lang = rng.random() < (.5 if i % 2 else .15)        # MPI_Init, MPI_Finalize and the communicators through the Fortran 2008 interface
        if lang and rng.random() < .5:
            if rng.random() < .3: members[1] = members[0]; derive = lambda r: 'dup 1 0;'; undo = lambda r: 'cfree 1;'
            else: members[1], derive, undo = derived(rng, n, p)
        for j in range(1 if rng.random() < .7 else 2):
            iface = rng.choice(['ext', 'f08', 'mpi']) if j or rng.random() < .2 else ('ext', 'f08')[i % 2]
            if iface == 'f08' and rng.random() < .2: iface = 'f77'
            fort = iface[0] == 'f'; fdt += fort; c = rng.choice(sorted(members))
            ty = 'allreduce' if fort else t if j == 0 else rng.choice(EXT_TYPES)
            d = gen_coll(rng, ty, len(members[c]), p if c == 0 else 1, rng.choice(['fixed', 'random']) if c == 0 else 'auto', small=True, dts=(FDT[fdt % len(FDT)],) if fort else ('long', 'int', 'double', 'float'))
            d['iface'] = iface; d.pop('nonroot', None)
            if c: d['comm'] = c; d.pop('info', None)
            colls[j] = d
        ext = any(d['iface'] == 'ext' for d in colls.values()); f08 = any(d['iface'][0] == 'f' for d in colls.values())
        cases.append(multi_case(rng, n, p, colls, members, 2, derive, undo, f08=lang, threads=not f08 and not lang and rng.random() < .4, kinds=('wait',) if f08 else ('wait', 'test') if ext else ('wait', 'test', 'waitall', 'testall', 'waitany'), noall=ext or f08, key='fortran ' if lang else ''))
    ck.judge(cases)
    return ck.finish(ASSUME)

CHECKS = {
    'C01': results(['allreduce']),
    'C02': results(['reduce']),
    'C03': results(['reduce_scatter', 'reduce_scatter_block']),
    'C04': results(['allgather', 'allgatherv']),
    'C05': results(['gather', 'gatherv']),
    'C06': results(['bcast']),
    'C07': results(['scatter', 'scatterv']),
    'C08': c08, 'C09': c09, 'C10': c10, 'C11': c11, 'C12': c12, 'C14': c14, 'C15': c15, 'C13': c13, 'C16': c16, 'C17': c17, 'C18': c18, 'C19': c19, 'C20': c20, 'C21': c21,
}

def main(prop, tier):
    ck = vp.Check(prop, tier)
    try:
        return CHECKS[prop](ck)
    except SystemExit: raise
    except Exception:
        traceback.print_exc(); ck.cleanup(); return 2
