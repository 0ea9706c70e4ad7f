"""From a recording of the real code (one program per process) to a case of Schedule.tla.

Only the representation changes: byte ranges become ranges of atoms (the coarsest partition of every
memory region that no operation cuts), MPI serials, channels, flag publications and synchronisations are
numbered.  No operation is judged or reordered here; left out are only flag reads that observe nothing the
process has not observed before (polling), and accesses of the measurements' own buffers."""
import bisect, collections

class TooBig(Exception): pass

GATHERLIKE = ('gather', 'gatherv', 'allgather', 'allgatherv')
SHIFTED = ('reduce_scatter', 'reduce_scatter_block', 'scatter', 'scatterv')
ESZ = dict(int=4, long=8, float=4, double=8, char=1, byte=1, short=2, ull=8, complex=16, trip=12)

def esize(dt):
    if dt in ESZ: return ESZ[dt]
    if dt.startswith('f_'): return 8 if dt[-1] == '8' or dt == 'f_double' else 4
    raise KeyError(dt)

def coll_meta(c, members):
    """c: dict of the scenario's collective; members: world ranks of its communicator"""
    n = len(members); t = c['type']; e = esize(c.get('dt', 'long'))
    cnt = [int(c.get('count', 1))] * n
    if t in ('allgatherv', 'gatherv', 'scatterv', 'reduce_scatter') and c.get('counts'):
        l = [int(x) for x in c['counts'].split(',')]
        cnt = [l[i % len(l)] for i in range(n)]
    return {'type': t, 'root': int(c.get('root', 0)), 'n': n, 'counts': [x * e for x in cnt], 'inplace': int(c.get('inplace', 0)),
            'total': (sum(cnt) if t in GATHERLIKE + SHIFTED else int(c.get('count', 1))) * e}

def pref(m, d): return sum(m['counts'][:d])

def convert(res, colls, members_of, tree=0, cid='', maxatoms=1500, eager=0):
    """res: result of the simulator; colls: {id: dict}; members_of: {comm id: [world ranks]}"""
    n = res['n']
    order = sorted(colls)
    cidx = {c: i + 1 for i, c in enumerate(order)}
    meta = {c: coll_meta(colls[c], members_of[int(colls[c].get('comm', 0))]) for c in order}
    progs = res['progs']; regs = res['regions']
    cuts = collections.defaultdict(set)
    edges = collections.defaultdict(set)         # region -> set of (off, other region, other off, len)
    def cut(r, o, l):
        if l > 0: cuts[r].add(o); cuts[r].add(o + l)
    def edge(ra, oa, rb, ob, l):
        if l > 0 and not (ra == rb and oa == ob): edges[ra].add((oa, rb, ob, l)); edges[rb].add((ob, ra, oa, l))
    # memory that is made and released within a call of an init function belongs to the measurements
    # made there: their buffers hold no data of the user, so the operations on them carry no meaning
    scratch = {r for r, g in enumerate(regs) if g[0] != 1 and g[5]}
    def skip(op): return op[0] == 'i' or (op[0] in 'CRSZX' and op[1] in scratch)
    progs = [[None if skip(op) else op for op in q] for q in progs]
    chan = {}; sent = collections.defaultdict(list); rcvd = collections.defaultdict(list); msgser = set()
    bars = {}; pubs = {}
    for p in range(n):
        for op in progs[p]:
            if op is None: continue
            k, r0, o0, r1, o1, r2, o2, ln, a, b, c, d, esz, lst = op
            if k in 'UK':
                cut(r0, o0, ln)
                if a in meta and ln > 0:
                    m = meta[a]; L = -1 - cidx[a]
                    if k == 'U' and c == 1: edge(r0, o0, L, pref(m, d) if m['type'] in GATHERLIKE else 0, ln)
                    elif k == 'K' and c == 1: edge(r0, o0, L, pref(m, d) if m['type'] in SHIFTED else 0, ln)
                    if m['type'] in GATHERLIKE + SHIFTED:      # ownership changes at the blocks' ends
                        for i in range(m['n'] + 1): cuts[L].add(pref(m, i))
            elif k in 'CR': cut(r0, o0, ln); cut(r1, o1, ln); edge(r0, o0, r1, o1, ln)
            elif k == 'S': cut(r0, o0, ln); cut(r1, o1, ln); cut(r2, o2, ln); edge(r0, o0, r1, o1, ln); edge(r0, o0, r2, o2, ln)
            elif k in 'ZXWF': cut(r0, o0, ln)
            elif k == 'I': cut(r1, o1, ln); sent[(c, p, a, b)].append((r1, o1, ln)); msgser.add(d)
            elif k == 'V': cut(r0, o0, ln); rcvd[(c, a, p, b)].append((r0, o0, ln)); msgser.add(d)
            if k == 'F' and b >= 0 and a >= 0: pubs[(a, b)] = 0
    for ch, l in sent.items():
        for s, v in zip(l, rcvd.get(ch, [])): edge(s[0], s[1], v[0], v[1], min(s[2], v[2]))
    # close the cuts under correspondence
    work = [(r, x) for r in list(cuts) for x in cuts[r]]
    elist = {r: sorted(s) for r, s in edges.items()}
    tot = 0
    while work:
        r, x = work.pop()
        for (oa, rb, ob, l) in elist.get(r, ()):
            if oa > x: break
            if x <= oa + l:
                y = ob + x - oa
                if y not in cuts[rb]: cuts[rb].add(y); work.append((rb, y)); tot += 1
                if tot > 40000: raise TooBig()
    real = sorted(r for r in cuts if r >= 0)
    ridx = {}; out = []; offs = {}
    for r in real:
        cs = sorted(cuts[r])
        if len(cs) < 2: continue
        ridx[r] = len(out) + 1; offs[r] = cs
        kind, size, owner, coll, role = regs[r][:5]
        out.append([kind, owner + 1, cidx.get(coll, 0) if kind == 1 else 0, role, cs[:-1], [y - x for x, y in zip(cs, cs[1:])]])
    if sum(len(o[4]) for o in out) > maxatoms: raise TooBig()
    def rng(r, o, l):
        if l <= 0: return (1, 1, 0)
        i = bisect.bisect_left(offs[r], o); j = bisect.bisect_left(offs[r], o + l)
        assert offs[r][i] == o and offs[r][j] == o + l
        return (ridx[r], i + 1, j - i)
    for i, key in enumerate(sorted(pubs)): pubs[key] = i + 1
    def chid(key):
        if key not in chan: chan[key] = len(chan) + 1
        return chan[key]
    newp = []
    for p in range(n):
        q = []
        known = set(); seenpub = set()
        for i, op in enumerate(progs[p]):
            if op is None: continue
            k, r0, o0, r1, o1, r2, o2, ln, a, b, c, d, esz, lst = op
            def emit(k, r=1, lo=1, s=1, slo=1, m=0, a=0, b=0, c=0, d=0, l=()): q.append([k, r, lo, s, slo, m, a, b, c, d, list(l)])
            if k in 'UK':
                if a not in meta or ln <= 0: continue
                r, lo, m = rng(r0, o0, ln); emit(k, r, lo, 1, 1, m, cidx[a], b, c, d)
            elif k in 'ge':
                if a in cidx: emit(k, a=cidx[a])
            elif k in 'CR':
                if ln <= 0: continue
                r, lo, m = rng(r0, o0, ln); s, slo, m2 = rng(r1, o1, ln); assert m == m2; emit(k, r, lo, s, slo, m)
            elif k == 'S':
                r, lo, m = rng(r0, o0, ln); s, slo, m2 = rng(r1, o1, ln); t, tlo, m3 = rng(r2, o2, ln); assert m == m2 == m3; emit(k, r, lo, s, slo, m, t, tlo)
            elif k in 'ZX':
                if ln > 0: r, lo, m = rng(r0, o0, ln); emit(k, r, lo, 1, 1, m)
            elif k == 'W': r, lo, m = rng(r0, o0, ln); emit(k, r, lo, 1, 1, m, pubs.get((p, i), 0))
            elif k == 'F' and (a < 0 or b < 0 or a == p or (a, b) in seenpub): pass      # observes nothing new
            elif k == 'F': seenpub.add((a, b)); r, lo, m = rng(r0, o0, ln); emit(k, r, lo, 1, 1, m, pubs.get((a, b), 0) if a >= 0 else 0)
            elif k == 'I': known.add(d); s, slo, m = rng(r1, o1, ln); emit(k, 1, 1, s, slo, m, chid((c, p, a, b)), d, ln)
            elif k == 'V': known.add(d); r, lo, m = rng(r0, o0, ln); emit(k, r, lo, 1, 1, m, chid((c, a, p, b)), d, ln)
            elif k == 'A':
                l = [x for x in lst if x in known]
                if l: emit(k, l=l)
            elif k == 'B':
                key = (a, b); bars.setdefault(key, len(bars) + 1)
                emit('B', a=bars[key]); emit('D', a=bars[key], b=c)
        newp.append(q)
    cs = []
    for c in order:
        m = meta[c]; cs.append({k: m[k] for k in ('type', 'root', 'n', 'counts', 'inplace')})
    return {'id': cid, 'n': n, 'regs': out, 'colls': cs, 'progs': newp, 'flags': max(1, len(pubs)), 'chans': max(1, len(chan)), 'bars': max(1, len(bars)), 'tree': tree, 'eager': eager}
