"""Plans for the index functions, coefficients, 3-j symbols, H and complex powers."""
import math, random


def number(hists):
    return [dict(h=i+1, ops=ops) for i, ops in enumerate(hists)]


def plan_index(seed, quick):
    r = random.Random(seed*101 + 1)
    H = []
    top = dict(LM=14 if quick else 30, LMpM=7 if quick else 12, Half=11 if quick else 20, Wedge=8 if quick else 16)
    for k, hi in top.items():
        for lo in range(hi+1):
            for h in range(lo-1, hi+1):
                if k != 'Wedge':
                    H.append([dict(op='range', k=k, lo=lo, hi=h)]*2)    # twice: the first answer is overwritten in between
                if k in ('LM', 'LMpM') or (k == 'Wedge' and lo == 0):
                    H.append([dict(op='size', k=k, lo=lo, hi=h)])
                    if h >= lo:
                        H.append([dict(op='index', k=k, lo=lo, hi=h)])
    # ranges of large ell
    for k, a, b in (('LM', 33, 40), ('LM', 100, 101), ('LM', 0, 50), ('LM', 64, 64), ('LM', 7, 31), ('LMpM', 16, 16), ('LMpM', 31, 32), ('LMpM', 8, 13), ('LMpM', 40, 40),
                    ('Half', 31, 33), ('Half', 40, 41), ('Half', 12, 25), ('Half', 65, 65)):
        if k != 'Wedge':
            H.append([dict(op='range', k=k, lo=a, hi=b)])
        if k in ('LM', 'LMpM'):
            H.append([dict(op='size', k=k, lo=a, hi=b)])
            H.append([dict(op='index', k=k, lo=a, hi=b)])
    for lo in range(0, 8):
        for h in range(0, 8):
            if lo % 2 or h % 2:
                H.append([dict(op='intonly', lo=lo, hi=h)])
    for lo in range(0, 6 if quick else 12):
        H.append([dict(op='deduce', lo=lo, n=n) for n in range(0, 300 if quick else 2000)])
    for _ in range(100 if quick else 1000):
        lo = r.randrange(0, 40)
        s = r.choice([r.randrange(100, 10**4), r.randrange(10**4, 10**6), r.randrange(10**6, 9*10**7)])
        H.append([dict(op='deducebig', lo=lo, s=s, d=d) for d in (-1, 0, 1)])
    for _ in range(200 if quick else 2000):
        l = r.choice([r.randrange(33, 1000), r.randrange(1000, 10**5)])
        lo = r.choice([0, 2, r.randrange(0, l+1), l])
        H.append([dict(op='big', fn='LM_index', a=[l, r.randrange(-l, l+1), lo]),
                  dict(op='big', fn='LM_total_size', a=[l, lo]),
                  dict(op='big', fn='LMpM_index', a=[l, r.randrange(-l, l+1), r.randrange(-l, l+1), lo]),
                  dict(op='big', fn='LMpM_total_size', a=[l, lo])])
    # the flat indices of the H recursions
    for mod in ('wedge', 'full'):
        for _ in range(40 if quick else 400):
            l = r.choice([0, 1, 2, 3, r.randrange(4, 40), r.randrange(40, 10**5)])
            H.append([dict(op='big', fn=mod + '.nm_index', a=[l, r.choice([-l, l, r.randint(-l, l)])]),
                      dict(op='big', fn=mod + '.nabsm_index', a=[l, r.choice([0, l, r.randint(0, l)])]),
                      dict(op='big', fn=mod + '.nmpm_index', a=[l, r.choice([-l, l, r.randint(-l, l)]), r.choice([-l, l, r.randint(-l, l)])])])
    for l in range(6 if quick else 10):
        H.append([dict(op='wedgeify', c=[l, a, b]) for a in range(-l, l+1) for b in range(-l, l+1)])
    return number(H)


def plan_coef(seed, quick):
    return number([[dict(op='coef', fn=fn, L=L, ph=seed)] for fn, top in
                   (('factorial', 171), ('binomial', 65), ('ladder', 65), ('Wigner', 65)) for L in range(top)])


def all_m(j, extra):
    """all (m1,m2,m3) with m's up to one beyond the range, m3 = -(m1+m2); and some with a wrong m3"""
    out = [[a, b, -a-b] for a in range(-j[0]-1, j[0]+2) for b in range(-j[1]-1, j[1]+2)]
    return out + [[a, b, c+d] for (a, b, c), d in extra(out)]


def plan_3j(seed, quick):
    r = random.Random(seed*101 + 3)
    H = []
    top = 6 if quick else 9
    for a in range(top+1):
        for b in range(top+1):
            for c in range(top+1):
                ms = all_m([a, b, c], lambda o: [(r.choice(o), r.choice([-2, -1, 1, 2])) for _ in range(3)])
                for i in range(0, len(ms), 60):
                    H.append([dict(op='w3j', j=[a, b, c], ms=ms[i:i+60])])
                    H.append([dict(op='cg', j=[a, b, c], ms=[[x, y, -z] for x, y, z in ms[i:i+60]])])
    def some(jmax, jmin, n, k):
        for _ in range(n):
            a, b = r.randint(jmin, jmax), r.randint(jmin, jmax)
            style = r.randrange(6)
            if style == 0:
                c = a + b
            elif style == 1:
                c = abs(a - b)
            elif style == 2:
                c = a + b + 1
            else:
                c = r.randint(abs(a-b), min(a+b, jmax))
            c = min(c, 2*jmax)
            j = [a, b, c]
            if sum(j) > 1105:      # the specification has factorials up to there
                j[j.index(max(j))] -= sum(j) - 1105
            r.shuffle(j)
            ms = []
            for _ in range(k):
                s = r.randrange(5)
                m1 = r.choice([-j[0], j[0], 0, r.randint(-j[0], j[0])]) if s < 3 else r.randint(-j[0], j[0])
                m2 = r.choice([-j[1], j[1], 0, r.randint(-j[1], j[1])]) if s < 3 else r.randint(-j[1], j[1])
                if s == 4:   # m3 at the edge of its range
                    m3 = r.choice([-j[2], j[2]])
                    m1 = max(-j[0], min(j[0], -m3 - m2))
                    m2 = -m3 - m1
                ms.append([m1, m2, -m1-m2])
            ms.append([0, 0, 0])
            H.append([dict(op=r.choice(['w3j', 'w3j', 'cg']), j=j, ms=ms)])
            if H[-1][0]['op'] == 'cg':
                H[-1][0]['ms'] = [[x, y, -z] for x, y, z in ms]
    some(12, 0, 300 if quick else 3000, 12)
    some(40, 8, 200 if quick else 2000, 6)
    some(140, 60, 40 if quick else 400, 3)
    some(300, 140, 6 if quick else 60, 2)
    some(500, 300, 3 if quick else 20, 1)
    # large j: all the way from one end of the range of j1 to the other, through the long tails
    for i in range(14 if quick else 150):
        b, c = r.randint(90, 230), r.randint(90, 230)
        m2, m3 = r.choice([r.randint(-b, b), 0, b, -b, 1]), r.choice([r.randint(-c, c), 0, c, -c, 1])
        if i % 3 == 0:
            m3 = max(-c, min(c, -m2 + r.randint(-3, 3)))
        lo = max(abs(b-c), abs(m2+m3))
        js = sorted({lo, b+c} | {r.randint(lo, b+c) for _ in range(14)})
        for j in js:
            k = r.randrange(3)
            js3, ms3 = [j, b, c], [-m2-m3, m2, m3]
            H.append([dict(op='w3j', j=js3[k:] + js3[:k], ms=[ms3[k:] + ms3[:k]])])
    return number(H)


def req(r, jmax, kind):
    j2, j3 = (r.randint(0, jmax), r.randint(0, jmax)) if kind else (r.choice([0, 1, jmax]), r.choice([0, 1, jmax]))
    def m(j):
        return r.choice([-j-1, -j, j, j+1, 0, r.randint(-j, j), r.randint(-j, j), r.randint(-j, j)])
    m2, m3 = m(j2), m(j3)
    if r.random() < .15:
        m2 = m3 = 0
    if r.random() < .1:
        m3 = -m2
    return [j2, j3, m2, m3]


def plan_calc(seed, quick, pairs):
    r = random.Random(seed*101 + 4)
    H = []
    if quick:
        small = [p for p in pairs if max(p[0][:2] + p[1][:2]) <= 1]
        pairs = [p for i, p in enumerate(sorted(pairs)) if r.random() < .05] + small
    def calc(i, q, keep=False):
        d = dict(op='calc', id=i, j2=q[0], j3=q[1], m2=q[2], m3=q[3])
        if keep:
            d['keep'] = 1
        return d
    for p, q in pairs:
        a = max(p[0], q[0]) + r.choice([0, 0, 1])
        b = max(p[1], q[1]) + r.choice([0, 0, 2])
        H.append([dict(op='new', id=1, a=a, b=b), calc(1, p), calc(1, q)])
    # long lives of one or two calculators
    for _ in range(60 if quick else 600):
        jm = r.choice([2, 3, 4, 6, 8, 12, 16] if quick else [2, 3, 4, 6, 8, 12, 16, 24, 32])
        ops = [dict(op='new', id=1, a=jm, b=jm)]
        n = r.choice([1, 2])
        if n == 2:
            ops.append(dict(op='new', id=2, a=jm, b=r.randint(0, jm)))
        for k in range(6 if quick else 12):
            i = r.randint(1, n)
            b = [o for o in ops if o['op'] == 'new' and o['id'] == i][0]['b']
            q = req(r, jm, r.random() < .7)
            if q[1] > b:
                q[1] = b
                q[3] = max(-b, min(b, q[3]))
            ops.append(calc(i, q, r.random() < .4))
            if r.random() < .3:
                ops.append(dict(op='kept', i=r.randrange(10)))
        H.append(ops)
    for jm in (40, 70) if quick else (40, 70, 100, 140):      # few requests of a large calculator, small and large ones in turn
        ops = [dict(op='new', id=1, a=jm, b=jm)]
        for k in range(5):
            ops.append(calc(1, req(r, jm if k % 2 == 0 else 5, True), True))
        H.append(ops + [dict(op='kept', i=0), dict(op='kept', i=1)])
    # all m for some (j2, j3), each asked of the same calculator (every branch of the recurrence)
    for j2 in range(0, 5 if quick else 9):
        for j3 in range(0, 5 if quick else 9):
            ops = [dict(op='new', id=1, a=j2, b=j3)]
            ms = [(a, b) for a in range(-j2-1, j2+2) for b in range(-j3-1, j3+2)]
            r.shuffle(ms)
            H.append(ops + [calc(1, [j2, j3, a, b]) for a, b in ms])
    return number(H)


def betas(r, n):
    """angles: exact, quarter, near the poles, negative, generic"""
    pool = [0.0, math.pi, math.pi/2, math.pi/3, 2*math.pi/3]
    pool += [10.0**-k * r.uniform(1, 9) for k in range(1, 12)] + [math.pi - 10.0**-k * r.uniform(1, 9) for k in range(1, 12)]
    pool += [r.uniform(0, math.pi) for _ in range(20)]
    pool += [-r.uniform(0, math.pi) for _ in range(5)]
    return [r.choice(pool) for _ in range(n)]


def angles(r, n, with_s):
    c, s = [], []
    for b in betas(r, n):
        if with_s:
            cb, sb = math.cos(b), math.sin(b)
            if b == math.pi:
                sb = 0.0
            c.append(cb), s.append(sb)
        else:   # the sine is derived from the cosine, so keep away from where that loses digits
            cb = r.choice([1.0, -1.0, 0.0, 0.5, -0.5, 0.6, -0.8]) if r.random() < .4 else math.cos(max(3e-3, min(abs(b), math.pi-3e-3)))
            c.append(cb)
    return c, s


def plan_H(seed, quick, behaviours):
    """behaviours: sequences of TLC: which calculator, which workspace (0: none), which angle shape"""
    r = random.Random(seed*101 + 9)
    H = []
    shapes = [[], [1], [3], [2, 2], [1, 2, 1]]
    def call(i, w, sh, with_s, bad=None):
        n = 1
        for k in sh:
            n *= k
        c, s = angles(r, n, with_s)
        ssh = list(sh)
        if bad == 'range':
            c[r.randrange(n)] = r.choice([1.0000001, -1.5, 2.0])
        if bad == 'shape':
            c, s = angles(r, n, True)
            s = s + s
            ssh = [len(s)]
        return dict(op='hcall', id=i, ws=w, c=c, s=s, sh=list(sh), ssh=ssh)
    # the behaviours TLC enumerated: two calculators of different implementation or n_max, shared use of workspaces
    for b in behaviours:
        if quick and len({st['impl'] for st in b if st['a'] == 'new'}) > 1:
            continue
        ops = []
        for st in b:
            if st['a'] == 'new':
                ops.append(dict(op='hnew', id=st['id'], impl=st['impl'], nmax=st['n']))
            elif st['a'] == 'ws':
                ops.append(dict(op='hws', id=st['id'], ws=st['w'], sh=shapes[st['sh']], dirty=st['d']))
            else:
                ops.append(call(st['id'], st['w'], shapes[st['sh']], r.random() < .5))
        ops.append(dict(op='hkept', i=r.randrange(10)))
        H.append(ops)
    for impl in ('wedge', 'full'):
        H.append([dict(op='hnew', id=1, impl=impl, nmax=-1)])
        for sh in shapes:   # several calls of one calculator, then all results once more
            H.append([dict(op='hnew', id=1, impl=impl, nmax=4)] + [call(1, 0, sh, k % 2 == 0) for k in range(3)]
                     + [dict(op='hkept', i=k) for k in range(3)])
        H.append([dict(op='hnew', id=1, impl=impl, nmax=3), call(1, 0, [2], True), call(1, 0, [3], True), call(1, 0, [2], False),
                  dict(op='hnew', id=2, impl=impl, nmax=3), call(2, 0, [2], True)] + [dict(op='hkept', i=k) for k in range(4)])
        for nmax in (list(range(0, 7)) + [8, 12] if quick else list(range(0, 14)) + [16, 20, 24, 32]):
            for rep in range(2 if nmax > 6 else 3):
                ops = [dict(op='hnew', id=1, impl=impl, nmax=nmax)]
                sh = [[2], [], [3]][rep] if nmax < 8 else [[1], []][rep]
                ops.append(call(1, 0, sh, rep % 2 == 0))
                H.append(ops)
                ops = [dict(op='hnew', id=1, impl=impl, nmax=nmax), dict(op='hws', id=1, ws=1, sh=sh, dirty=0),
                       call(1, 1, sh, rep % 2 == 1)]
                if nmax < 8:
                    ops.append(call(1, 1, sh, True))
                H.append(ops)
            if nmax < 4:
                H.append([dict(op='hnew', id=1, impl=impl, nmax=nmax), call(1, 0, [2], False, 'range'),
                          call(1, 0, [2], False, 'shape'), call(1, 0, [2], True)])
    if quick:
        H.append([dict(op='hnew', id=1, impl='wedge', nmax=20), call(1, 0, [1], True)])
        H.append([dict(op='hnew', id=1, impl='full', nmax=17), call(1, 0, [], True)])
        H.append([dict(op='hnew', id=1, impl='wedge', nmax=24), call(1, 0, [1], True)])
    P = number(H)
    for p in P:     # one process per implementation (each compiles only its own), one for the mixed histories
        kinds = {o['impl'] for o in p['ops'] if o['op'] == 'hnew'}
        p['g'] = 'mixed' if len(kinds) > 1 else kinds.pop()
    return P


def zs(r, n):
    out = []
    for _ in range(n):
        k = r.randrange(8)
        if k == 0:
            z = r.choice([1, 1j, -1, -1j])
        elif k == 1:
            z = r.choice([1, 1j, -1, -1j]) * complex(math.cos(1e-9), r.choice([-1, 1]) * math.sin(1e-9))
        elif k == 2:
            t = 10.0**-r.choice([r.randint(1, 17), r.randint(1, 17), 30, 100, 160, 200, 308, 320])
            z = r.choice([1, 1j, -1, -1j]) * complex(math.cos(t), r.choice([-1, 1]) * math.sin(t))
        elif k == 3:
            z = complex(.6, .8) * r.choice([1, 1j, -1, -1j])
        elif k == 4:
            z = complex(r.choice([-1, 1]) * math.sqrt(.5), r.choice([-1, 1]) * math.sqrt(.5))
        else:
            t = r.uniform(-math.pi, math.pi)
            z = complex(math.cos(t), math.sin(t))
        z = complex(z)
        out.append([z.real, z.imag])
    return out


def plan_pow(seed, quick):
    r = random.Random(seed*101 + 10)
    H = []
    shapes = [[], [1], [4], [2, 3], [0], [2, 1, 2]]
    Ms = [0, 1, 2, 3, 4, 5, 7, 8, 16, 33] + ([100] if quick else [64, 100, 255, 1000])
    for sh in shapes:
        n = 1
        for k in sh:
            n *= k
        for M in Ms:
            for pre in (0, 1):
                for lay in (['C'] if pre == 0 else ['C', 'F', 'strided']):
                    ops = [dict(op='pow', z=zs(r, n), zsh=sh, M=M, pre=pre, lay=lay, py=int(r.random() < .5))]
                    if pre and M < 40:    # the same buffer again
                        ops.append(dict(op='pow', z=zs(r, n), zsh=sh, M=M, pre=2, lay=lay, py=0))
                    H.append(ops)
    for M in (500, 1000, 1025, 4096, 10000):       # high powers
        H.append([dict(op='pow', z=zs(r, 2), zsh=[2], M=M, pre=r.choice([0, 1]), lay='C', py=0)])
    for n in (130, 1100):       # many numbers
        H.append([dict(op='pow', z=zs(r, n), zsh=[n], M=9, pre=0, lay='C', py=0)])
    for _ in range(80 if quick else 1000):
        H.append([dict(op='pow', z=zs(r, 6), zsh=[6], M=r.choice(Ms[:9]), pre=0)])
    return number(H)


def plan_qang(seed, quick):
    """quaternions off the poles, of any length"""
    import plans_wigner as pw
    r = random.Random(seed*101 + 22)
    qs = pw.graded(r, 'a')[:12] + pw.graded(r, 'b')[:12] + pw.near_equal(r) + pw.randoms(r, 150 if quick else 3000)
    qs += [q for q in pw.EXACT if (q[0] or q[3]) and (q[1] or q[2])]
    qs += [[a, b, c, d] for a in (0., 1., -1.) for b in (0., 1., -1.) for c in (0., 1., -1.) for d in (0., 1., -1.) if (a or d) and (b or c)]
    out = []
    for i, q in enumerate(qs):
        k = r.choice([1, 1, 2.0**-20, 2.0**9, r.uniform(.1, 10), -1, 10.0**r.uniform(-290, 290), 2.0**r.choice([-900, -540, 530, 900])])
        if min(abs(x) for x in q if x)*abs(k) < 1e-300:
            k = 1
        out.append([dict(op='qang', q=[k*x for x in q])])
    return number(out)


def plan_conv(seed, quick, behaviours):
    """Behaviours of MCConv (kind, spin weight, ell range, sequence of functions), with seeded numbers and layouts."""
    r = random.Random(seed*101 + 16)
    H = []

    def chain(f, word, **kw):
        f = dict(f)
        k = f['k']
        if k == 'modes':
            sh = [(f['hi']+1)**2 - f['lo']**2]
        else:
            sh = kw.pop('sh', None) or r.choice([[], [3], [2, 2], [1], [1, 2, 1]]) + ([3] if k in ('vec', 'ell1') else [])
        new = dict(op='new', id=1, k=k, s=f['s'], lo=f['lo'], hi=f['hi'], sh=sh, seed=r.randrange(10**6), zeros=r.random() < .3,
                   real=k in ('const', 'vec') and r.random() < .5, exp=r.choice([0, 0, 0, 12]))
        new['lay'] = r.choice(['C', 'C', 'strided', 'rev', 'F', 'ro'] + (['list'] if k == 'modes' else [])) if sh else 'scalar'
        if k in ('const', 'vec') and r.random() < .15:
            new.update(int=1, real=1, exp=0)
        new.update(kw)
        ops, s = [new], f['s']
        for i, w in enumerate(word):
            op = dict(op=w, a=i+1, id=i+2)
            if k == 'modes':
                op.update(s=s, lo=f['lo'], form=r.choice(['pos', 'kw'] + (['default'] if f['lo'] == 0 else [])))
                s += 1 if w in ('eth_NP', 'eth_GHP', 'ethbar_inverse_NP') else -1
            ops.append(op)
        H.append(ops)
    for b in behaviours:
        chain(b['from'], b['word'])
    eth = ['eth_NP', 'ethbar_NP', 'eth_GHP', 'ethbar_GHP', 'ethbar_inverse_NP']
    # higher spin weights and ell, and modes given below the spin weight
    for _ in range(150 if quick else 1500):
        s = r.choice([r.randint(-3, 3), r.randint(-14, 14)])
        lo = r.choice([0, 0, abs(s), r.randint(0, 12)])
        hi = lo + r.choice([0, 1, r.randint(0, 8)])
        chain(dict(k='modes', s=s, lo=lo, hi=hi), [r.choice(eth)], low=r.random() < .5)
        chain(dict(k='modes', s=s, lo=lo, hi=hi), [r.choice(eth) for _ in range(4)], exp=0)
    for lo, hi in ((0, 32), (2, 32), (30, 33), (0, 20)):
        for op in eth:
            chain(dict(k='modes', s=r.choice([-2, 0, 1, 2, 7]), lo=lo, hi=hi), [op])
    return number(H)
