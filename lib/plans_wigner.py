"""Argument data for the Wigner-D and SWSH functions (seeded, stratified)."""
import math, random

S2 = math.sqrt(0.5)


def unit(v):
    n = math.sqrt(sum(x*x for x in v))
    return [x/n for x in v]


def ab(ra, pa, rb, pb):
    """quaternion with Ra = ra e^{i pa}, Rb = rb e^{i pb}"""
    return [ra*math.cos(pa), rb*math.sin(pb), rb*math.cos(pb), ra*math.sin(pa)]


EXACT = [[1, 0, 0, 0], [-1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1], [0, 0, -1, 0], [0, -1, 0, 0],
         [0, 0, 0, -1], [.5, .5, .5, .5], [.5, -.5, .5, -.5], [-.5, .5, .5, .5], [S2, 0, S2, 0], [S2, S2, 0, 0],
         [0, 0, S2, S2], [0, S2, 0, -S2], [.6, 0, 0, .8], [0, .6, -.8, 0], [.6, 0, .8, 0], [.8, 0, -.6, 0],
         [-.28, 0, .96, 0]]
EXACT = [[float(x) for x in q] for q in EXACT]


def graded(r, side):
    """rotors at distances 1e-1 ... 1e-17 from the pole where Rb (side 'b') or Ra (side 'a') vanishes"""
    out = []
    for k in range(1, 18):
        e = r.uniform(1, 9.9) * 10.0**-k
        big = math.sqrt(1 - e*e)
        pa, pb = r.uniform(-math.pi, math.pi), r.uniform(-math.pi, math.pi)
        out.append(ab(big, pa, e, pb) if side == 'b' else ab(e, pa, big, pb))
    for k in (25, 60, 120, 154, 170, 200, 307):      # where squares and powers vanish
        pa, pb, e = r.uniform(-math.pi, math.pi), r.uniform(-math.pi, math.pi), 10.0**-k
        out.append(ab(1.0, pa, e, pb) if side == 'b' else ab(e, pa, 1.0, pb))
    out.append([1.0, 5e-324, -0.0, -0.0] if side == 'b' else [-0.0, 1.0, -0.0, 5e-324])
    return out


def near_equal(r):
    """|Ra| and |Rb| equal up to a few units in the last place: both branches of the code meet here"""
    out = []
    for d in (0.0, 1e-16, -1e-16, 1e-12, -1e-12, 1e-3, -1e-3):
        t = math.pi/4 + d
        out.append(ab(math.cos(t), r.uniform(-3.1, 3.1), math.sin(t), r.uniform(-3.1, 3.1)))
    return out


def randoms(r, n):
    return [unit([r.gauss(0, 1) for _ in range(4)]) for _ in range(n)]


def rotors(r, n):
    """a stratified set of about n rotors (all strata present, random ones fill up)"""
    g = graded(r, 'a') + graded(r, 'b')
    out = EXACT + g + near_equal(r)
    return out + randoms(r, max(8, n - len(out)))


def all_idx(lo, hi, step=1):
    """all [2l, 2m', 2m] with 2l in lo..hi"""
    return [[L, a, b] for L in range(lo, hi+1, step) for a in range(-L, L+1, 2) for b in range(-L, L+1, 2)]


def rand_idx(r, Lmax=64, Lmin=0):
    L = r.randint(Lmin, Lmax)
    return [L, r.randrange(-L, L+1, 2), r.randrange(-L, L+1, 2)]


def edge_idx(r, L):
    """corner and edge elements of the matrix for twice-ell L"""
    z = L % 2
    c = [[L, L, L], [L, L, -L], [L, -L, L], [L, -L, -L], [L, z, z], [L, L, z], [L, z, -L]]
    return [c[r.randrange(len(c))], [L, r.randrange(-L, L+1, 2), r.choice([-L, L])]]


LAYS = ['C', 'T', 'strided', 'F', 'reversed', 'swapped', 'ro']    # 7: prime to the numbers of shapes


class Plan:
    def __init__(self):
        self.p = []

    def add(self, ops):
        self.p.append(dict(h=len(self.p) + 1, ops=ops if isinstance(ops, list) else [ops]))


def again(P, seed, quick):
    """some histories end by asking the first question once more (the driver has overwritten its first answer)"""
    r = random.Random(seed * 7919 + 77)
    for h in P.p:
        if r.random() < (.2 if quick else .1) and (not isinstance(h['ops'][0].get('ix'), list) or len(h['ops'][0]['ix']) < 60) and len(h['ops'][0].get('rot', [])) < 60 and h['ops'][0].get('hi', 0) < 20:
            h['ops'] = h['ops'] + [h['ops'][0]]
    # numbers as Python's or numpy's, integers where they are integers
    for h in P.p:
        h['ops'] = [dict(op, nt=r.randrange(60)) if r.random() < .4 else op for op in h['ops']]
    return P.p


def plan_D(seed, quick):
    r = random.Random(seed * 7919 + 5)
    P = Plan()
    rs = rotors(r, 66 if quick else 400)
    full = all_idx(0, 6 if quick else 12)
    for i, q in enumerate(rs):
        # explicit index arrays: everything for small ell, a sample up to ell = 32
        ix = full if i % (3 if quick else 1) == 0 else r.sample(full, 25)
        hi = [rand_idx(r, 64, 7) for _ in range(12 if quick else 60)] + edge_idx(r, r.randint(7, 64)) + edge_idx(r, 64)
        ix = ix + hi
        P.add(dict(op='D', rf='q', rot=q, xf='list', ix=ix, py=i % 2))
        P.add([dict(op='D', rf='q', rot=q, xf='lmm', ix=rand_idx(r, 64 if k % 2 else 8)) for k in range(6)]
              + [dict(op='D', rf='ab', rot=q, xf='lmm', ix=rand_idx(r, 64 if k % 2 else 8)) for k in range(4)])
        few = [rand_idx(r, 40) for _ in range(6)]
        P.add(dict(op='D', rf='ab', rot=q, xf='list', ix=few, py=(i+1) % 2))
        if i % 4 == 0:
            P.add([dict(op='D', rf='q', rot=q, xf='ell', ix=r.randint(0, 9)), dict(op='D', rf='ab', rot=q, xf='ell', ix=r.randint(0, 5)),
                   dict(op='D', rf='q', rot=q, xf='ell', ix=0), dict(op='D', rf='q', rot=q, xf='ell', ix=r.choice([1, 3, 5]))])
            P.add([dict(op='D', rf='q', rot=q, xf='ells', ix=[r.randint(0, 7) for _ in range(3)], py=r.randint(0, 1)),
                   dict(op='D', rf='ab', rot=q, xf='ells', ix=[r.randint(0, 7)]),
                   dict(op='D', rf='q', rot=q, xf='ells', ix=[4, 2, 4] if i % 8 else [5, 1])])
        if i % 3 == 1:  # index values that are a rounding error away from the half-integers they stand for
            e = r.choice([-1, 1])
            P.add([dict(op='D', rf='q', rot=q, xf='list', ix=[rand_idx(r, 24) for _ in range(8)], fl=1, eps=e, py=i % 2),
                   dict(op='D', rf='ab', rot=q, xf='list', ix=[rand_idx(r, 24) for _ in range(4)], fl=1, eps=-e),
                   dict(op='D', rf='q', rot=q, xf='lmm', ix=rand_idx(r, 24), eps=e), dict(op='D', rf='q', rot=q, xf='lmm', ix=rand_idx(r, 24), eps=-e),
                   dict(op='D', rf='q', rot=q, xf='ell', ix=r.randint(1, 5), eps=e), dict(op='D', rf='q', rot=q, xf='ell', ix=r.randint(1, 5), eps=-e),
                   dict(op='D', rf='q', rot=q, xf='ells', ix=[r.randint(0, 7) for _ in range(2)], fl=1, eps=e),
                   dict(op='D', rf='q', rot=q, xf='ells', ix=[r.randint(0, 7) for _ in range(2)], fl=1, eps=-e),
                   dict(op='D', rf='qs', rot=[q], qsh=[1], xf='lmm', ix=rand_idx(r, 24), eps=e),
                   dict(op='D', rf='qs', rot=[q], qsh=[1], xf='lmm', ix=rand_idx(r, 24), eps=-e)])
    # Euler angles, including the degenerate beta = 0 and beta = pi
    for k in range(24 if quick else 150):
        e = [r.uniform(-7, 7), r.choice([0.0, math.pi, r.uniform(0, math.pi), r.uniform(0, math.pi), r.uniform(-6, 6)]), r.uniform(-7, 7)]
        if k % 6 == 0:
            e[r.randrange(3)] = 0.0
        if k % 4 == 1:      # angles that are integers
            e = [float(r.randint(-3, 3)), float(r.randint(0, 3)), float(r.randint(-4, 4))]
        if k % 4 == 2:
            e[r.randrange(3)] = float(r.randint(-3, 3))
        P.add([dict(op='D', rf='euler', rot=e, xf='lmm', ix=rand_idx(r, 40)), dict(op='D', rf='euler', rot=e, xf='lmm', ix=rand_idx(r, 8)),
               dict(op='D', rf='euler', rot=e, xf='list', ix=[rand_idx(r, 20) for _ in range(10)]),
               dict(op='D', rf='euler', rot=e, xf='ell', ix=r.randint(0, 4)), dict(op='D', rf='euler', rot=e, xf='ells', ix=[r.randint(0, 4), r.randint(0, 3)])])
    # real Ra and Rb, as numbers of several types
    for i, q in enumerate([q for q in EXACT if q[1] == q[3] == 0]):
        P.add([dict(op='D', rf='ab', rot=q, xf=xf, ix=ix, nt=r.randrange(60)) for xf, ix in (('lmm', [4, 2, -2]), ('lmm', [1, 1, -1]), ('lmm', [1, 1, 1]), ('list', [[4, 4, 4], [4, 4, -4], [4, 0, 2]]), ('ell', 2), ('ells', [1, 2]))])
    # one thing changes from call to call
    for k in range(8 if quick else 40):
        q1, q2 = r.choice(rs), r.choice(rs)
        rf = r.choice(['q', 'ab'])
        a = [rand_idx(r, 12) for _ in range(3)]
        b = [rand_idx(r, 12) for _ in range(3)]
        P.add([dict(op='D', rf=f, rot=q, xf=xf, ix=ix) for f, q, xf, ix in
               ((rf, q1, 'list', a), (rf, q1, 'list', b), (rf, q2, 'list', b), (rf, q1, 'list', a[:2] + b[:1]), (rf, q1, 'lmm', a[0]), (rf, q1, 'list', a[:1]),
                ('q', q1, 'lmm', b[0]), ('ab', q1, 'lmm', b[0]), ('q', q2, 'lmm', b[0]), ('q', q1, 'ell', 2), ('q', q2, 'ell', 2), ('q', q1, 'ells', [2]),
                ('q', q1, 'ells', [2, 1]), ('q', q1, 'ells', [1, 2]), ('q', [-x for x in q1], 'ell', 1))]
              + [dict(op='D', rf='qs', rot=q, qsh=sh, xf='lmm', ix=ix) for q, sh, ix in
                 (([q1, q2], [2], [4, 2, 0]), ([q1, q2], [2], [4, 0, 2]), ([q2, q1], [2], [4, 0, 2]), ([q1, q2], [1, 2], [4, 2, 0]), ([q1, q2], [2], [4, 2, 0]),
                  ([q1, q2], [2], [3, 1, 1]), ([q2, q2], [2], [3, 1, 1]))])
    # arrays of rotors with one (ell, m', m)
    ixs = all_idx(0, 8, 2) if quick else all_idx(0, 20, 2)
    r.shuffle(ixs)
    ixs += [[2*l, 2*r.randint(-l, l), 2*r.randint(-l, l)] for l in range(5, 33) for _ in range(2 if quick else 12)]
    ixs += [x for l in range(5, 33, 3) for x in edge_idx(r, 2*l)]
    halves = [rand_idx(r, 31) for _ in range(20)]
    for x in halves:
        x[0] |= 1
    halves = [[L, r.randrange(-L, L+1, 2), r.randrange(-L, L+1, 2)] for L, _, _ in halves]
    for n, ix in enumerate(ixs + halves):
        k = 6 if quick else 24
        pick = r.sample(rs, k)
        sh = [[k], [2, k//2], [k, 1], [1, 2, k//2]][n % 4]
        P.add(dict(op='D', rf='qs', rot=pick, qsh=sh, lay=LAYS[n % len(LAYS)], xf='lmm', ix=ix))
    for k, sh, ix in ((300, [300], [2, 0, -2]), (700, [7, 100], [1, 1, -1]), (1100, [1100], [2, 2, 0]), (130, [13, 1, 10], [4, -2, 2])):
        P.add(dict(op='D', rf='qs', rot=[r.choice(rs) for _ in range(k)], qsh=sh, lay=r.choice(LAYS), xf='lmm', ix=ix))
    P.add([dict(op='D', rf='qs', rot=[rs[-1]], qsh=[], xf='lmm', ix=[4, 2, 0]), dict(op='D', rf='qs', rot=[], qsh=[0], xf='lmm', ix=[4, 2, 0]),
           dict(op='D', rf='qs', rot=[rs[-2]], qsh=[1], xf='lmm', ix=[3, 1, -3])])
    return again(P, seed, quick)


def plan_Dm(seed, quick):
    r = random.Random(seed * 7919 + 6)
    P = Plan()
    rs = rotors(r, 80 if quick else 300)
    for i, q in enumerate(rs):
        lo = r.choice([0, 0, 1, 2, 3])
        P.add(dict(op='Dm', q=q, lo=2*lo, hi=2*(lo + r.choice([0, 1, 2, 3]))))
        if i % 5 == 0 or not quick:
            P.add(dict(op='Dm', q=q, lo=0, hi=2*r.choice([6, 7, 8])))
    for l in (range(9, 33, 4) if quick else range(9, 33)):
        P.add(dict(op='Dm', q=r.choice(rs), lo=2*l, hi=2*l))
    P.add(dict(op='Dm', q=r.choice(rs[-8:]), lo=64, hi=64))
    P.add(dict(op='Dm', q=r.choice(near_equal(r)), lo=2*31, hi=64))
    if not quick:
        for _ in range(8):
            P.add(dict(op='Dm', q=r.choice(rs), lo=2*r.randint(0, 20), hi=64))
    # the same rotor for different ranges, different rotors for the same range, and back
    for k in range(4 if quick else 20):
        q1, q2 = r.choice(rs), r.choice(rs)
        P.add([dict(op='Dm', q=q, lo=2*lo, hi=2*hi) for q, lo, hi in ((q1, 0, 2), (q1, 1, 2), (q1, 2, 2), (q1, 0, 1), (q2, 0, 1), (q1, 0, 1), (q1, 1, 2), (q1, 2, 3),
                                                                      (q2, 2, 3), (q1, 1, 1), ([-x for x in q1], 1, 1), (q1, 3, 3), (q1, 0, 2))])
    # outside the domain
    P.add([dict(op='Dm', q=rs[-1], lo=lo, hi=hi) for lo, hi in ((1, 3), (0, 3), (1, 4), (0, 66), (66, 66), (2, 65), (0, 80))])
    return again(P, seed, quick)


def bad_idx(r):
    L = r.randint(0, 12)
    k = r.randrange(8)
    s = r.choice([-1, 1])
    if k == 0:
        return [L, s*(L+2), r.randrange(-L, L+1, 2)]
    if k == 1:
        return [L, r.randrange(-L, L+1, 2), s*(L+2*r.randint(1, 4))]
    if k == 2:
        return [-2*r.randint(1, 4), 0, 0]
    if k == 3:
        return [64 + r.randint(1, 4), 0, 0]
    if k == 4:  # integer ell, half-integer m' or m
        return [2*r.randint(1, 5), s, 0]
    if k == 5:
        return [2*r.randint(1, 5), 0, s]
    if k == 6:  # half-integer ell, integer m', m
        return [2*r.randint(1, 5) + 1, 0, s]
    return [L, s*(L+2), -s*(L+2)]


def plan_policy(seed, quick, behaviours):
    """behaviours: sequences of abstract steps from the model: 't', 'f' (set flag), 'v', 'i' (valid / invalid call)"""
    r = random.Random(seed * 7919 + 7)
    rs = rotors(r, 70)
    P = Plan()
    # the flag as it is before anyone touches it
    P.add([dict(op='D', rf='q', rot=rs[-1], xf='lmm', ix=[2, 4, 0]), dict(op='D', rf='q', rot=rs[-1], xf='list', ix=[[2, 0, 0], [2, 0, -4]])])
    for b in behaviours:
        ops = []
        for s in b:
            if s in 'tf':
                ops.append(dict(op='flag', v=int(s == 't')))
                continue
            q = r.choice(rs)
            form = r.choice(['lmm', 'lmm', 'list', 'list', 'ell', 'ells', 'qs', 'qs', 'eul'])
            d = dict(op='D', rf=r.choice(['q', 'q', 'ab']), rot=q)
            if form == 'lmm':
                d.update(xf='lmm', ix=rand_idx(r) if s == 'v' else bad_idx(r))
            elif form == 'list':
                ix = [rand_idx(r, 30) for _ in range(r.randint(1, 5))]
                if s == 'i':
                    for _ in range(r.randint(1, 2)):
                        ix.insert(r.randint(0, len(ix)), bad_idx(r))
                d.update(xf='list', ix=ix)
            elif form == 'ell':
                d.update(xf='ell', ix=r.randint(0, 6) if s == 'v' else r.choice([-1, -2, -4, 65, 66]))
            elif form == 'ells':
                ix = [r.randint(0, 5) for _ in range(r.randint(1, 3))]
                if s == 'i':
                    ix.insert(r.randint(0, len(ix)), r.choice([-1, -2, -4, 65, 66]))
                d.update(xf='ells', ix=ix)
            elif form == 'qs':
                k = r.randint(1, 4)
                d.update(rf='qs', rot=[r.choice(rs) for _ in range(k)], qsh=[k], xf='lmm', ix=rand_idx(r) if s == 'v' else bad_idx(r))
            else:
                d.update(rf='euler', rot=[r.uniform(-4, 4), r.uniform(0, 3), r.uniform(-4, 4)], xf='lmm', ix=rand_idx(r, 16) if s == 'v' else bad_idx(r))
            ops.append(d)
        P.add(ops)
    return P.p


def plan_SWSH(seed, quick):
    r = random.Random(seed * 7919 + 8)
    P = Plan()
    rs = rotors(r, 70 if quick else 300)
    for i, q in enumerate(rs):
        for s in ([0, r.choice([-2, 2]), r.randint(-8, 8)] if quick else [0, -2, 2, -1, 1, r.randint(-8, 8), r.randint(-32, 32)]):
            lm = r.randint(1, 4)
            ix = [[l, m] for l in range(0, lm+1) for m in range(-l, l+1)]
            hi = [[l, r.randint(-l, l)] for l in [r.randint(5, 32) for _ in range(4 if quick else 20)]]
            hi += [[l, m] for l in [max(abs(s), r.randint(2, 32))] for m in (-l, l, s if abs(s) <= l else 0, -s if abs(s) <= l else 0)]
            extra = [[r.randint(0, 4), r.choice([-9, 9, 6])], [max(0, abs(s) - 1), 0]]
            P.add(dict(op='Y', rf='q', rot=q, s=s, ix=ix + hi + extra, py=i % 2))
    n = 60 if quick else 600
    for k in range(n):
        s = r.choice([0, -2, 2, -1, 1, r.randint(-6, 6), r.randint(-32, 32)])
        l = r.choice([abs(s), r.randint(0, 8), r.randint(0, 32)])
        m = r.choice([-l, l, r.randint(-l, l), s, -s, l+1])
        c = 6
        pick = r.sample(rs, c)
        sh = [[c], [2, 3], [3, 2], [1, c], [2, 1, 3]][k % 5]
        P.add(dict(op='Y', rf='qs', rot=pick, qsh=sh, lay=LAYS[k % len(LAYS)], s=s, ix=[l, m], py=k % 2))
    for k in range(14 if quick else 100):
        c = 4
        pick = r.sample(rs, c)
        P.add(dict(op='Yg', rot=pick, qsh=[[c], [2, 2], [1, c], [2, 1, 2]][k % 4], lay=LAYS[k % len(LAYS)], s=r.choice([0, -2, 2, 1, -1, 3, 5]), lmax=r.choice([0, 1, 2, 3, 4, 8])))
    for k, sh, s, ix in ((300, [300], 0, [1, 0]), (130, [13, 10], -2, [2, 1]), (1100, [1100], 0, [1, -1]), (150, [15, 2, 5], 1, [2, 2])):
        P.add(dict(op='Y', rf='qs', rot=[r.choice(rs) for _ in range(k)], qsh=sh, lay=r.choice(LAYS), s=s, ix=ix))
        P.add(dict(op='Yg', rot=[r.choice(rs) for _ in range(k)], qsh=sh, lay=r.choice(LAYS), s=s, lmax=max(1, abs(s)) if k < 500 else 0))
    for k in range(6 if quick else 30):     # one thing changes from call to call
        q1, q2 = r.choice(rs), r.choice(rs)
        s = r.randint(-2, 2)
        ix = [[2, 1], [3, -2], [2, 0]]
        P.add([dict(op='Y', rf='q', rot=q, s=t, ix=i) for q, t, i in ((q1, s, ix), (q1, -s, ix), (q1, s + 1, ix), (q2, s, ix), (q1, s, [[2, 1], [3, 2], [2, 0]]), (q1, s, ix[:2]))]
              + [dict(op='Y', rf='qs', rot=q, qsh=[2], s=t, ix=i) for q, t, i in (([q1, q2], s, [2, 1]), ([q1, q2], s, [2, -1]), ([q1, q2], -s, [2, 1]), ([q2, q1], s, [2, 1]), ([q1, q2], s, [3, 1]))]
              + [dict(op='Yg', rot=q, qsh=sh, s=t, lmax=l) for q, sh, t, l in (([q1, q2], [2], s, 2), ([q1, q2], [2], s, 1), ([q1, q2], [2], -s, 2), ([q2, q2], [2], s, 2),
                                                                             ([q1, q2], [1, 2], s, 2), ([q1, q2], [2], s, 2), ([q1, q2], [2], s, 3))])
    for k in range(3 if quick else 20):     # rotors that differ little
        q = r.choice(rs)
        e = 10.0**-r.choice([4, 6, 8, 9, 10, 12])
        near = [q] + [unit([x + e * r.gauss(0, 1) for x in q]) for _ in range(5)] + [[-x for x in q], q]
        P.add([dict(op='Yg', rot=near, qsh=[8], s=r.randint(-2, 2), lmax=3), dict(op='Y', rf='qs', rot=near, qsh=[8], s=r.randint(-2, 2), ix=[r.randint(8, 30), r.randint(-4, 4)])])
    P.add(dict(op='Yg', rot=r.sample(rs, 1), qsh=[1], s=-2, lmax=32))
    P.add([dict(op='Y', rf='q', rot=rs[-1], s=0, ix=[[2, 0], [33, 0]]), dict(op='Y', rf='qs', rot=rs[-2:], qsh=[2], s=1, ix=[40, 3]),
           dict(op='Yg', rot=rs[-2:], qsh=[2], s=0, lmax=33), dict(op='Y', rf='q', rot=rs[-1], s=0, ix=[[32, 32]])])
    return again(P, seed, quick)
