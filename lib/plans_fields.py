"""Histories of Modes and Grid objects: behaviours of MCFields with numbers, and stratified arguments."""
import itertools, math, random

KINDS_M = ['n', 'n', 'int', 'sparse', 'wide', 'n real', 'one', 'n tiny', 'n huge']
IDT = ['i8', 'i8', 'i4', 'i2', 'i1', 'u1', 'bool', 'f4', 'f2']
KINDS_G = ['away', 'away', 'away', 'int', 'away real', 'away tiny']


def R(seed, tag):
    return random.Random('%s/%s' % (seed, tag))


class H:
    """collects histories"""
    def __init__(self, start=1):
        self.plan, self.h = [], start

    def add(self, ops, **k):
        self.plan.append(dict(h=self.h, ops=ops, **k))
        self.h += 1


def M(id, s, L, lead=(), seed=0, **k):
    lay = {1: dict(fortran=1), 2: dict(strided=1)}.get(seed % 7, {})
    return dict(dict(op='newM', id=id, s=s, lmin=abs(s), lmax=L, lead=list(lead), seed=seed, es=1, lm=1, **lay), **k)


def G(id, s, sh, seed=0, dt='c', **k):
    lay = {1: dict(fortran=1)}.get(seed % 5, {})
    return dict(dict(op='newG', id=id, s=s, sh=list(sh), seed=seed, es=1, dt=dt, **lay), **k)


def O(i):
    return dict(i=i)


def num(r, sh=(), dt='c', kind='away', **k):
    return dict(seed=r.randrange(10**6), sh=list(sh), kind=kind, dt=dt, **k)


def behaviours(seed, bs, start=1):
    """behaviours of the specification, with numbers"""
    h = H(start)
    r = R(seed, 'b')
    for b in bs:
        ops = []
        for c in b:
            c = dict(c)
            if c['op'] in ('newM', 'newG'):
                c['seed'] = r.randrange(10**6)
                c['kind'] = r.choice(KINDS_M if c['op'] == 'newM' else KINDS_G)
            for k in 'ab':
                if k in c and 'seed' in c[k]:
                    c[k] = dict(c[k], seed=r.randrange(10**6))
                    if c[k]['sh'] == []:
                        c[k]['py'] = r.choice(['', '', 'np', '0d'])
                    if c['op'] in ('mul', 'div') and r.random() < .15:
                        c[k]['idt'] = r.choice(IDT)
                    elif c[k]['sh'] and c['op'] not in ('add', 'sub'):
                        c[k]['py'] = r.choice(['', 'list']) if c.get('form') in ('op', 'uf', 'meth') and k == 'b' else ''
            ops.append(c)
        h.add(ops)
    return h.plan


def plan_new(seed, quick):
    h = H()
    r = R(seed, 'new')
    ss = range(-4, 5)
    leads = [[], [2], [1], [3, 2], [2, 1, 2]]
    reps = 1 if quick else 6
    for _ in range(reps):
        for s in ss:
            for lmin in range(0, 6):
                for d in ([0, 1, 3] if quick else range(0, 8)):
                    L = lmin + d
                    lead = r.choice(leads)
                    npos = r.choice([0, 0, 1, 1, 3])
                    lm = 1 if npos == 3 else r.choice([0, 1])
                    ops = [dict(op='newM', id=1, s=s, lmin=lmin, lmax=L, lead=lead, seed=r.randrange(10**6), es=1, lm=lm, npos=npos,
                                kind=r.choice(KINDS_M), trn=r.choice(['none', 'none', 'max', 'sum', 'min']),
                                **{k: 1 for k in r.sample(['fortran', 'strided', 'list', 'asfloat', 'trnone', 'x', 'y'], 1)})]
                    # all indices of a few ell values, valid or not
                    for l in sorted(set([0, abs(s)-1, abs(s), L-1, L, L+1]) & set(range(-1, L+2))):
                        for m in sorted({-l-1, -l, 0, l, l+1, r.randint(-l-1, l+1)}):
                            ops.append(dict(op='index', a=O(1), l=l, m=m))
                    for n in sorted({abs(s), L-1, L, L+2, r.randint(min(abs(s), L), L+3)} & set(range(abs(s), L+4))):
                        ops.append(dict(op='trunc', a=O(1), n=n, id=len(ops) + 10))
                    t = r.choice(['', 'max', 'sum'])
                    ops.append(dict(op='reM', a=O(1), id=5, es=0, s=0, trn=t))
                    if abs(s) <= L:
                        ops.append(dict(op='reM', a=O(1), id=6, es=1, s=-s, trn=''))
                    h.add(ops)
    # what has to be refused
    for s in (-2, 0, 1):
        for lmin, L in ((0, 2), (2, 4), (1, 1)):
            for lead in ([], [2]):
                base = dict(op='newM', id=1, s=s, lmin=lmin, lmax=L, lead=lead, seed=r.randrange(10**6), lm=1, es=1, npos=0)
                n = (L+1)**2 - lmin**2
                for k in (dict(nlast=n+1), dict(nlast=n-1), dict(nlast=n+2*L+3), dict(es=0), dict(npos=2), dict(npos=4),
                          dict(lm=0, nlast=n+1), dict(lm=0, nlast=n-1 if n > 1 else n+1), dict(npos=3, nlast=n+1)):
                    if k.get('nlast', 1) > 0:
                        h.add([dict(base, **k)])
    return h.plan


def plan_products(seed, quick):
    h = H()
    r = R(seed, 'prod')
    trs = ['none', 'sum', 'max', 'min', 'c0', 'c3', 'c9']
    forms = ['op', 'uf', 'meth', 'fn', 'meth', 'iop']
    pairs = [([], [])] * 4 + [([2], []), ([], [2]), ([2], [2]), ([2], [1])]
    n = 90 if quick else 900
    top = 3 if quick else 5
    for i in range(n):
        s1, s2 = r.randint(-3, 3), r.randint(-3, 3)
        L1, L2 = abs(s1) + r.randint(0, top - 1) if abs(s1) < top else abs(s1), abs(s2) + r.randint(0, top - 1) if abs(s2) < top else abs(s2)
        L1, L2 = min(L1, top + 1), min(L2, top + 1)
        if i % 9 == 0:      # a field with nothing in it
            L1 = max(0, abs(s1) - 1)
        l1, l2 = pairs[i % len(pairs)]
        t1, t2 = r.choice(trs), r.choice(trs)
        form = forms[i % len(forms)]
        ops = [M(1, s1, L1, l1, r.randrange(10**6), kind=r.choice(KINDS_M), trn=t1, lmin=0, **({'trnone': 1} if t1 == 'none' and i % 2 else {})),
               M(2, s2, L2, l2, r.randrange(10**6), kind=r.choice(KINDS_M), trn=t2, lmin=0)]
        c = dict(op='mul', form=form, a=O(1), b=O(2), id=3)
        if form == 'meth' and r.random() < 0.6:
            c.update(tr=r.choice(trs[1:]), kw=r.randint(0, 1))
        if form == 'fn':
            c.update(lf=r.randint(0, abs(s1)) if L1 >= abs(s1) else 0, lg=r.randint(0, abs(s2)))
        if form == 'iop':      # only where the result fits
            c.update(b=O(3), id=4)
            ops.append(M(3, s2, L2, [], r.randrange(10**6), trn='max', lmin=0))
            ops[0]['trn'] = 'max'
            ops[0]['lmax'] = max(L1, L2, 1)
        ops.append(c)
        h.add(ops)
    # operands of other memory layouts: truncated and sliced arrays, conjugates in place
    ops = [M(1, -1, 3, [2], 5), M(2, 1, 2, [], 6), dict(op='trunc', a=O(1), n=2, id=3), dict(op='mul', form='op', a=O(3), b=O(2), id=4),
           dict(op='take', a=O(1), n=1, id=5), dict(op='mul', form='op', a=O(5), b=O(2), id=6), dict(op='conj', form='inplace', a=O(5), id=0),
           dict(op='mul', form='meth', a=O(2), b=O(5), id=7), dict(op='mul', form='op', a=O(1), b=O(1), id=8)]
    h.add(ops)
    return h.plan


def plan_arrays(seed, quick, kind):
    """sums, differences, multiples and quotients with numbers and arrays over the leading dimensions"""
    h = H()
    r = R(seed, 'arr' + kind)
    leads = [[], [1], [2], [3], [4], [2, 3], [1, 4], [2, 1, 2]]
    for rep in range(1 if quick else 8):
        for lead in leads:
            for s in (0, r.choice([-2, -1, 1, 2])):
                if kind == 'M':
                    L = abs(s) + r.randint(0, 2)
                    o = M(1, s, L, lead, r.randrange(10**6), kind=r.choice(KINDS_M), trn=r.choice(['none', 'max']))
                    last = [[(L+1)**2]]
                else:
                    n = 2*abs(s) + 1 + r.randint(0, 2)
                    k = 2*abs(s) + 1 + r.randint(0, 2)
                    o = G(1, s, lead + [n, k], r.randrange(10**6), r.choice('cf'), kind=r.choice(KINDS_G))
                    last = [[k], [n, k], [n, 1]]
                shs = [[], list(lead), [1]*len(lead), lead[1:], [1] + lead[1:], lead + last[-1], [2] + lead, lead[:-1] + [lead[-1] + 1] if lead else [1]] + last
                shs = [list(x) for x in dict.fromkeys(map(tuple, shs))]
                ops, i = [o], 2
                for sh in shs:
                    for op in ('add', 'sub', 'mul', 'div'):
                        for kd in (('zero', 'one', 'sparse', 'away', 'cancel') if op in ('add', 'sub') else ('int', 'away', 'away')):
                            if kd == 'cancel' and math.prod(sh) < 2:
                                continue
                            if op in ('mul', 'div') and kd == 'int' and op == 'div':
                                kd = 'pos'
                            b = num(r, sh, r.choice('cf') if o.get('dt') != 'f' else 'f', kd)
                            b['py'] = '' if sh else r.choice(['', 'np', '0d'])
                            if r.random() < .25:
                                b['idt'] = r.choice(IDT)
                            f = r.choice(['op', 'uf', 'meth', 'op'])
                            if f != 'meth' and r.random() < .4 and not (op == 'div' and kind == 'M' and r.random() < .7):
                                ops.append(dict(op=op, form=f, a=b, b=O(1), id=i))
                            else:
                                ops.append(dict(op=op, form=f, a=O(1), b=b, id=i))
                            i += 1
                h.add(ops)
    return h.plan


def plan_sizes(seed, quick, what):
    """fewer histories, of larger objects: high ell and spin weight, many leading elements, large grids"""
    h = H()
    r = R(seed, 'size' + what)
    n = 1 if quick else 6
    derivs = ['L2', 'Lz', 'Lp', 'Lm', 'R2', 'Rz', 'Rp', 'Rm', 'eth', 'ethbar']
    for rep in range(n):
        big = [(0, 16, []), (-2, 24, []), (r.choice([-5, 7]), r.randint(9, 20), [2]), (r.choice([-12, 11]), 12, [1, 2]), (0, 32, []),
               (r.randint(-2, 2), 2, [60]), (r.randint(-1, 1), 1, [5, 4, 3]), (r.randint(-8, 8), r.randint(9, 13), [3])]
        for s, L, lead in big:
            def new(i, s=s, L=L, lead=lead):
                return M(i, s, L, lead, r.randrange(10**6), kind=r.choice(KINDS_M), trn=r.choice(['none', 'max']), lmin=0)
            if what == 'linear':
                ops = [new(1), new(2), new(3, L=max(abs(s), L - r.randint(1, 5)), lead=[])]
                ops += [dict(op=o, form=f, a=O(a), b=O(b), id=10+k) for k, (o, f, a, b) in enumerate(
                        (('add', 'op', 1, 2), ('sub', 'op', 2, 1), ('add', 'meth', 1, 3), ('sub', 'meth', 3, 1), ('sub', 'uf', 1, 3), ('add', 'op', 3, 2)))]
                ops += [dict(op='mul', form='op', a=O(1), b=num(r, lead), id=20), dict(op='div', form='op', a=O(2), b=num(r, lead), id=21),
                        dict(op='mul', form='op', a=num(r), b=O(2), id=22), dict(op='neg', form='op', a=O(3), id=23),
                        dict(op='add', form='iop', a=O(1), b=O(3), id=0)]
                h.add(ops)
            elif what == 'conj':
                ops = [new(1), dict(op='conj', form='bar', a=O(1), id=2), dict(op='norm', a=O(1), id=0), dict(op='conj', form='inplace', a=O(1), id=0)]
                if s == 0:
                    ops += [dict(op='real', form='', a=O(1), id=3), dict(op='imag', form='', a=O(1), id=4)]
                h.add(ops)
            elif what == 'derivs':
                h.add([new(1)] + [dict(op=o, a=O(1), id=10+k) for k, o in enumerate(derivs)]
                      + [dict(op='eth', a=O(18), id=30), dict(op='ethbar', a=O(19), id=31), dict(op='ethbar', a=O(18), id=32)])
            elif what == 'eval' and L < 30:
                k = 1 if len(lead) else 3
                h.add([new(1), dict(op='eval', a=O(1), rot=rotors(r, k), qsh=[k])])
        if what == 'products':
            for s1, L1, s2, L2, k1, k2, l1 in ((-2, 5, 2, 5, 'n', 'n', []), (0, 8, 1, 4, 'n', 'sparse', []), (5, 7, -6, 6, 'n', 'sparse', [2]), (-3, 10, 0, 9, 'sparse', 'sparse', []),
                                               (0, 16, 0, 3, 'sparse', 'n', []), (-1, 1, 0, 1, 'n', 'n', [40]), (8, 9, 7, 8, 'n', 'n', [])):
                for c in (dict(op='mul', form=r.choice(['op', 'uf']), a=O(1), b=O(2), id=3), dict(op='mul', form='meth', a=O(2), b=O(1), id=3, tr='max', kw=1)):
                    h.add([M(1, s1, L1, l1, r.randrange(10**6), kind=k1, trn='none', lmin=0), M(2, s2, L2, [], r.randrange(10**6), kind=k2, trn='none', lmin=0), c])
        if what == 'eval':
            for s, L, lead in ((-2, 10, []), (1, 7, [3]), (3, 8, []), (0, 12, [])):
                ops = [M(1, s, L, lead, r.randrange(10**6), kind='n', lmin=0), dict(op='grid', a=O(1), nt=0, np=0, id=2, form=''), dict(op='modes', a=O(2), l=-1, id=3, form=''),
                       dict(op='modes', a=O(2), l=L-2, id=4, form=''), dict(op='conj', form='bar', a=O(2), id=5), dict(op='modes', a=O(5), l=L, id=6, form='')]
                h.add(ops)
            k = 300 if quick else 1500     # many rotors
            h.add([M(1, -1, 2, [], r.randrange(10**6)), dict(op='eval', a=O(1), rot=rotors(r, k), qsh=[k])])
            for lead, k, qsh in (([2], 150, [150]), ([], 400, [20, 20]), ([3, 2], 70, [70]), ([], 1030, [1030]), ([5], 66, [6, 1, 11])):
                h.add([M(1, r.randint(-1, 1), 1, lead, r.randrange(10**6), lmin=0), dict(op='eval', a=O(1), rot=rotors(r, k), qsh=qsh)])
            # up to ell=32, where sYlm end
            for L, lead in ((31, []), (32, []), (32, [2]), (33, []), (33, [2]), (40, [])):
                h.add([M(1, r.randint(-8, 8), L, lead, r.randrange(10**6), kind='sparse', lmin=0), dict(op='eval', a=O(1), rot=rotors(r, 1), qsh=[1]),
                       dict(op='neg', form='op', a=O(1), id=2), dict(op='eval', a=O(2), rot=rotors(r, 2), qsh=[2])])
    return h.plan


def plan_conj(seed, quick):
    """real and imaginary parts in place; conjugates and parts of parts and of views"""
    h = H()
    r = R(seed, 'conj')
    for rep in range(1 if quick else 8):
        for L in range(0, 6 if quick else 9):
            for lead in ([], [2], [1, 3]):
                for s in (0, r.choice([-2, -1, 1, 2])):
                    new = M(1, s, L, lead, r.randrange(10**6), kind=r.choice(KINDS_M), trn=r.choice(['none', 'max']), lmin=0)
                    for o in ('real', 'imag', 'conj') if s == 0 else (r.choice(['real', 'imag', 'conj']),):
                        ops = [new, dict(op=r.choice(['view', 'copy', 'all']), a=O(1), id=2), dict(op=o, form='inplace', a=O(1), id=0),
                               dict(op='conj', form='bar', a=O(2), id=3), dict(op=o, form='inplace', a=O(2), id=0), dict(op='conj', form='inplace', a=O(3), id=0)]
                        if s == 0:
                            ops += [dict(op='real', form='', a=O(1), id=4), dict(op='imag', form='', a=O(1), id=5), dict(op='imag', form='', a=O(2), id=6)]
                        h.add(ops)
    return h.plan


def plan_alias(seed, quick):
    """operations whose result goes to an object that shares memory with the operands (views, parts, transposed cells)"""
    h = H()
    r = R(seed, 'alias')
    for rep in range(1 if quick else 6):
        for kind in 'MG':
            for op in ('add', 'sub', 'mul', 'div', 'neg', 'pos', 'conj', 'square', 'recip', 'abs'):
                if kind == 'M' and op in ('square', 'recip', 'abs'):
                    continue
                two = op in BINARY
                for a, b, o in ((1, 2, 3), (2, 1, 3), (1, 1, 3), (3, 1, 4), (4, 2, 1), (2, 4, 1), (5, 6, 5), (5, 5, 6), (5, 6, 7), (7, 6, 5), (1, 5, 4), (5, 1, 3), (6, 3, 1),
                                (3, 2, 1), (2, 3, 1), (1, 5, 1), (6, 1, 1)):
                    if not two and (a, o) not in ((1, 3), (3, 1), (3, 4), (5, 7), (7, 5), (5, 6)):
                        continue
                    if quick and two and r.random() < .3 or op == 'div' and kind == 'M' and (a < 5) != (o < 5):
                        continue
                    s = r.randint(-2, 2)
                    if kind == 'M':
                        L = max(1, abs(s)) + r.randint(0, 1)
                        s2 = s if op in ('add', 'sub') else r.choice([0, 0, -s, 1 if abs(s + 1) <= L else 0])
                        ops = [M(1, s, L, [2], r.randrange(10**6), trn='max', lmin=0), M(2, s2, L, [2] if op == 'div' or r.random() < .6 else [], r.randrange(10**6), trn='max', lmin=0)]
                    else:
                        n = 5 + 2*abs(s)
                        s2 = s if op in ('add', 'sub') else r.choice([0, -s, s])
                        ops = [G(1, s, [2, n, n], r.randrange(10**6)), G(2, s2, ([2] if op == 'div' or r.random() < .6 else []) + [n, n], r.randrange(10**6))]
                    ops += [dict(op='view', a=O(1), id=3), dict(op='all', a=O(1), id=4, form=r.choice(['', 'slice'])), dict(op='take', a=O(1), n=0, id=5),
                            dict(op='take', a=O(1), n=1, id=6), dict(op='take', a=O(3), n=0, id=7)]
                    c = dict(op=op, form=r.choice(['out', 'outtuple']), a=O(a), o=o, id=8)
                    if two:
                        c['b'] = O(b)
                        if op == 'div' and kind == 'M':
                            c['b'] = num(r)
                    ops += [c, dict(op='pos', form='op', a=O(1), id=9)]
                    h.add(ops)
                    if two and o == a:
                        h.add(ops[:-2] + [dict(op=op, form='iop', a=O(a), b=c['b'], id=8), ops[-1]])
    return h.plan


def plan_again(seed, quick, what):
    """the same question before and after its operand - or the earlier answer - was changed in place"""
    h = H()
    r = R(seed, 'again' + what)
    un = {'conj': [('M', dict(op='conj', form=f)) for f in ('bar', 'meth', 'meth2', 'np', 'uf')] + [('M', dict(op=o, form='')) for o in ('real', 'imag', 'norm')],
          'derivs': [('M', dict(op=o)) for o in DERIVS],
          'grids': [('M', dict(op='grid', nt=0, np=0)), ('M', 'eval'), ('G', dict(op='modes', l=-1)), ('G', dict(op='modes', l=2))],
          'grid': [('G', dict(op='conj', form=f)) for f in ('bar', 'meth', 'np')] + [('G', dict(op=o, form='op')) for o in ('neg', 'pos', 'abs')] +
                  [('G', dict(op=o, form='')) for o in ('real', 'imag')] + [('G', dict(op='square', form='uf')), ('G', dict(op='pow', form='op', n=2))] +
                  [('G', dict(op=o, form=f)) for o in ('add', 'mul') for f in ('op', 'uf', 'meth')],
          'modes': [('M', dict(op=o, form=f)) for o in ('neg', 'pos') for f in ('op', 'uf')] + [('M', dict(op='copy')), ('M', dict(op='pickle', n=2)), ('M', dict(op='npcopy'))] +
                   [('M', dict(op=o, form=f)) for o in ('add', 'sub') for f in ('op', 'uf', 'meth')],
          'products': [('M', dict(op='mul', form=f)) for f in ('op', 'uf', 'meth')]}
    for w in what.split():
        for rep in range(1 if quick else 6):
            for kind, q in un[w]:
                q = dict(q) if q != 'eval' else dict(op='eval', rot=rotors(r, 3), qsh=[3])
                spin0 = q['op'] in ('real', 'imag')
                two = q['op'] in ('add', 'sub', 'mul')
                for change in ('conj', 'set', 'scale', 'view', 'neg'):
                    s = 0 if spin0 or (two and change == 'conj' and q['op'] != 'mul') else r.choice([-2, -1, 1, 2, 0])
                    L = max(2, abs(s)) + r.randint(0, 1)
                    lead = r.choice([[], [2]])
                    n = 2*L + 1
                    if kind == 'M':
                        new = [M(i, s, L, lead, r.randrange(10**6), kind=r.choice(['n', 'wide', 'int']), trn='max', lmin=0) for i in (1, 2)]
                    else:       # grids that come from modes, so that their modes are known
                        new = [M(i + 50, s, L, lead, r.randrange(10**6), lmin=0) for i in (1, 2)] + [dict(op='grid', a=O(i + 50), nt=n, np=n, id=i) for i in (1, 2)]

                    def alter(i, id):
                        c = change
                        if c == 'conj':
                            return [dict(op='conj', form='inplace', a=O(i), id=0)]
                        if c == 'set' and w != 'grids':
                            return [dict(op='set', a=O(i), p=r.randrange(100), z=[r.gauss(0, 1), r.gauss(0, 1)])]
                        if c == 'view':
                            return [dict(op='view', a=O(i), id=id), dict(op='neg', form='out', a=O(id), o=id, id=0)]
                        if c == 'neg':
                            return [dict(op='neg', form='out', a=O(i), o=i, id=0)]
                        return [dict(op='mul', form='iop', a=O(i), b=num(r), id=0)]

                    ask = lambda id, a=1: dict(q, a=O(a), id=id, **(dict(b=O(2)) if two else {}))
                    ops = new + [ask(10)] + alter(1, 20) + [ask(11)]
                    if two and change != 'conj':
                        ops += alter(2, 21) + [ask(12)]
                    if q['op'] not in ('norm', 'eval', 'npcopy') and not (q['op'] == 'grid' or kind == 'G' and change == 'set'):
                        ops += [dict(op='neg', form='out', a=O(11), o=11, id=0), ask(13)]
                    ops += alter(1, 22) + [ask(14)]
                    h.add(ops)
    return h.plan


def pick(r, lead, views=False):
    """a selection from leading dimensions -> (operation without its operand, leading dimensions of the result)"""
    kd = r.choice(['key', 'key', 'key', 'key', 'perm', 'shape'] if len(lead) > 1 else ['key', 'key', 'key', 'shape'])
    if kd == 'perm':
        key = list(range(1, len(lead) + 1))
        r.shuffle(key)
        return dict(op='pick', kd=kd, key=key, dots=r.randint(0, 1)), [lead[k-1] for k in key]
    if kd == 'shape':
        n = int(math.prod(lead))
        key = r.choice([[n], [1, n], [n, 1]] + ([[0, 2]] if n == 0 else []) + [[a, n // a] for a in range(2, n) if n % a == 0])
        return dict(op='pick', kd=kd, key=key), list(key)
    key, fancy = [], False if views else r.random() < .3
    m = len(lead) if fancy else r.randint(1, len(lead))
    at = r.randrange(m)
    for i in range(m):
        n = lead[i]
        if fancy and i == at:
            key.append([r.choice('fb')] + [r.randrange(-n, n) for _ in range(r.randint(1, n + 1) if n else 0)])
        elif fancy or r.random() < .6:
            key.append(['s'] + r.choice([[None, None, -1], [None, None, 2], [1, None, None] if n > 1 else [None] * 3, [None, -1, None] if n > 1 else [None] * 3,
                                         [None, None, None], [-1, None, None], [n - 1, None, -2], [0, 1, None]] + [[n, None, None]]*(r.random() < .3)))
        elif r.random() < .3 or not n:
            key.append(['n'])
            key.append(['s', None, None, -1])
        else:
            key.append(['i', r.randrange(-n, n)])
    sh, dims = [], iter(lead)
    for k in key + [['s', None, None, None]]*(len(lead) - m):
        n = 0 if k[0] == 'n' else next(dims)
        if k[0] == 'n':
            sh.append(1)
        elif k[0] == 's':
            sh.append(len(range(*slice(*k[1:]).indices(n))))
        elif k[0] != 'i':
            sh.append(len(k) - 1 if k[0] == 'f' else len({x % n for x in k[1:]}))
    return dict(op='pick', kd=kd, key=key, dots=r.randint(0, 1)), sh


def plan_picks(seed, quick, what):
    """operations on parts of objects, on objects with their leading dimensions in another order or shape, and what is then seen in the whole"""
    h = H()
    r = R(seed, 'pick' + what)
    pools = {'linear': ('M', ['neg', 'pos', 'add', 'sub', 'mul', 'div', 'iop', 'out']), 'conj': ('M', ['conj', 'real', 'imag', 'norm', 'cin']), 'derivs': ('M', DERIVS),
             'products': ('M', ['prod', 'prod', 'prodw']), 'grids': ('M', ['grid', 'eval']), 'copies': ('MG', ['copy', 'copy.copy', 'deepcopy', 'pickle', 'view', 'npcopy', 'zeros_like']),
             'grid': ('G', ['neg', 'conj', 'add', 'sub', 'gmul', 'gdiv', 'abs', 'square', 'recip', 'sqrt', 'pow', 'real', 'iop', 'out']),
             'alias': ('MG', ['iop', 'out', 'out', 'cin', 'overlap', 'overlap'])}
    kinds, pool = pools[what]
    for rep in range((36 if what != 'derivs' else 24) if quick else 400):
        kind = r.choice(kinds)
        lead = r.choice([[3], [4], [2, 3], [3, 2], [2, 2, 3], [5], [1, 3], [3], [4], [2, 3], [0], [2, 0]] if rep % 6 else [[0], [2, 0], [0, 3], [3, 2, 4]])
        q = r.sample(pool, min(len(pool), 3 if what != 'copies' else 4))
        s = 0 if 'real' in q or 'imag' in q else r.randint(-2, 2)
        L = max(1, abs(s)) + r.randint(0, 1)
        n, k = 2*max(L, abs(s)) + 1 + r.randint(0, 1), 2*max(L, abs(s)) + 1 + r.randint(0, 1)
        if kind == 'M':
            def new(i, ld, s=s):
                return M(i, s, L, ld, r.randrange(10**6), kind=r.choice(['n', 'wide', 'int']), trn='max', lmin=0)
        else:
            def new(i, ld, s=s):
                return G(i, s, list(ld) + [n, k], r.randrange(10**6), trn='max')
        p1, sh1 = pick(r, lead)
        ops = [new(1, lead), dict(p1, a=O(1), id=2)]
        cur, sh = 2, sh1
        if sh and r.random() < .5:
            p2, sh = pick(r, sh)
            ops.append(dict(p2, a=O(2), id=3))
            cur = 3
        ops += [new(4, sh), new(5, [])]
        i = 10
        for o in q:
            a, i = O(cur), i + 1
            if o in ('neg', 'pos'):
                ops.append(dict(op=o, form=r.choice(['op', 'uf']), a=a, id=i))
            elif o == 'conj':
                ops.append(dict(op=o, form=r.choice(['bar', 'meth', 'np']), a=a, id=i))
            elif o in ('add', 'sub'):
                x, y = r.choice([(cur, 4), (4, cur), (cur, 5), (cur, cur), (1, 5)])
                ops.append(dict(op=o, form=r.choice(['op', 'uf', 'meth']), a=O(x), b=O(y), id=i))
            elif o in ('mul', 'div'):
                ops.append(dict(op=o, form=r.choice(['op', 'uf', 'meth']), a=a, b=num(r, r.choice([[], sh])), id=i))
            elif o == 'prodw':
                ops.append(dict(op='mul', form='meth', a=O(4), b=a, id=i, tr='max', kw=1))
            elif o == 'prod':
                x, y = r.choice([(cur, 4), (4, cur), (cur, 5), (5, cur)])
                ops.append(dict(op='mul', form=r.choice(['op', 'uf', 'meth']), a=O(x), b=O(y), id=i))
            elif o in ('gmul', 'gdiv'):
                x, y = r.choice([(cur, 4), (4, cur), (cur, 5), (5, cur)])
                ops.append(dict(op=o[1:], form=r.choice(['op', 'uf', 'meth']), a=O(x), b=O(y), id=i))
            elif o == 'iop':
                ops += [dict(op='mul', form='iop', a=a, b=num(r, r.choice([[], sh])), id=0)]
            elif o == 'cin':
                ops += [dict(op='conj', form='inplace', a=a, id=0), dict(op='conj', form='inplace', a=O(1), id=0), dict(op='conj', form='inplace', a=a, id=0)]
            elif o == 'out':
                ops += [r.choice([dict(op='add', form='out', a=O(4), b=O(5), o=cur, id=0), dict(op='neg', form='out', a=O(4), o=cur, id=0), dict(op='neg', form='out', a=a, o=4, id=0),
                                  dict(op='sub', form='out', a=a, b=O(4), o=cur, id=0), dict(op='mul', form='out', a=O(4), b=num(r), o=cur, id=0), dict(op='conj', form='out', a=O(4), o=cur, id=0)])]
            elif o == 'overlap':    # the whole backwards, directed to the whole
                ops += [dict(op='pick', kd='key', key=[['s', None, None, -1]], dots=0, a=O(1), id=i + 30), new(i + 60, lead),
                        r.choice([dict(op='add', form='out', a=O(i+30), b=O(i+60), o=1, id=0), dict(op='neg', form='out', a=O(i+30), o=1, id=0), dict(op='mul', form='out', a=O(i+30), b=num(r), o=1, id=0),
                                  dict(op='conj', form='out', a=O(1), o=i+30, id=0), dict(op='sub', form='out', a=O(1), b=O(i+30), o=i+30, id=0), dict(op='add', form='iop', a=O(1), b=O(i+30), id=0)])]
            elif o == 'pow':
                ops.append(dict(op='pow', form='op', a=a, n=r.choice([2, 3, -1, 0]), id=i))
            elif o in ('square', 'recip', 'sqrt'):
                ops.append(dict(op=o, form='uf', a=a, id=i))
            elif o == 'abs':
                ops.append(dict(op=o, form='op', a=a, id=i))
            elif o == 'grid':
                g = dict(op='grid', a=a, nt=2*L + 1 + r.randint(0, 1), np=2*L + 1, id=i)
                ops += [g, dict(op='modes', a=O(i), l=r.choice([-1, L]), id=i + 30)]
                if sh:
                    p3, sh3 = pick(r, sh)
                    ops += [dict(p3, a=O(i), id=i + 50), dict(op='modes', a=O(i + 50), l=L, id=i + 70)]
            elif o == 'eval':
                qsh = r.choice([[2], [], [3]])
                ops.append(dict(op='eval', a=a, rot=rotors(r, int(math.prod(qsh))), qsh=qsh))
            elif o == 'pickle':
                ops.append(dict(op=o, a=a, n=r.randrange(6), id=i))
            else:
                ops.append(dict(op=o, form='', a=a, id=i))
            if what == 'copies' and o not in ('npcopy', 'zeros_like'):
                ops += [dict(op='neg', form='out', a=O(i), o=i, id=0)]
        ops += [dict(op='pos', form='op', a=O(1), id=90), dict(op='pos', form='op', a=O(2), id=91)]
        h.add(ops)
    return h.plan


DERIVS = ['L2', 'Lz', 'Lp', 'Lm', 'R2', 'Rz', 'Rp', 'Rm', 'eth', 'ethbar']
BINARY = ('add', 'sub', 'mul', 'div')


def renumber(*plans):
    out = [p for plan in plans for p in plan]
    return [dict(p, h=i+1) for i, p in enumerate(out)]


def plan_derivs(seed, quick):
    h = H()
    r = R(seed, 'der')
    names = ['L2', 'Lz', 'Lp', 'Lm', 'R2', 'Rz', 'Rp', 'Rm', 'eth', 'ethbar']
    top = 8 if quick else 14
    for s in range(-5, 6):
        for L in sorted({abs(s), abs(s)+1, max(0, abs(s)-1), top}):
            for lead in ([], [2]) if quick else ([], [2], [1, 2], [2, 1, 1]):
                ops = [M(1, s, L, lead, r.randrange(10**6), kind=r.choice(KINDS_M), trn=r.choice(['none', 'max']), lmin=0)]
                ops += [dict(op=n, a=O(1), id=i+2) for i, n in enumerate(names)]
                # ladders: apply again to the results, past the ends
                ops += [dict(op='eth', a=O(10), id=20), dict(op='ethbar', a=O(10), id=21), dict(op='eth', a=O(11), id=22), dict(op='ethbar', a=O(11), id=23),
                        dict(op='Lm', a=O(4), id=24), dict(op='Rp', a=O(9), id=25)]
                h.add(ops)
    return h.plan


def rotors(r, n):
    out = []
    for i in range(n):
        k = r.randrange(8)
        if k == 0:
            q = r.choice([[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1], [-1, 0, 0, 0]])
        elif k == 1:
            a = r.uniform(-3, 3)
            q = [math.cos(a), 0, 0, math.sin(a)]
        elif k == 2:
            a = r.uniform(-3, 3)
            q = [0, math.cos(a), math.sin(a), 0]
        else:
            q = [r.gauss(0, 1) for _ in range(4)]
            m = math.sqrt(sum(x*x for x in q))
            q = [x/m for x in q]
        out.append(q)
    for i in range(1, n):
        if r.random() < .15:      # close to the one before, equal to it, or its negative
            e = r.choice([0, 0, 1e-5, 1e-8, 1e-9, 1e-11])
            q = [x + e * r.gauss(0, 1) for x in out[i-1]]
            m = math.sqrt(sum(x*x for x in q)) * r.choice([1, 1, -1])
            out[i] = [x/m for x in q]
    return out


def plan_grids(seed, quick):
    h = H()
    r = R(seed, 'grids')
    top = 4 if quick else 8
    for s in range(-3, 4):
        for L in sorted({max(1, abs(s)), max(1, abs(s)) + 1, max(top, abs(s) + 1)}):
            n0 = 2*L + 1
            for lead in ([], [2]) if quick else ([], [2], [1], [2, 2]):
                ops = [M(1, s, L, lead, r.randrange(10**6), kind=r.choice(KINDS_M), trn=r.choice(['none', 'max']), lmin=0)]
                sizes = [(0, 0), (n0+1, 0), (0, n0+2), (n0+r.randint(0, 3), n0+r.randint(0, 3))]
                # grids that do not resolve the function still have its values
                if n0 > 2*abs(s)+1 + 1:
                    sizes.append((max(2*abs(s)+1, n0-2), max(2*abs(s)+1, n0-1)))
                i = 2
                for nt, np in r.sample(sizes, 3) if quick else sizes:
                    if nt == 1:
                        nt = 2
                    ops.append(dict(op='grid', a=O(1), nt=nt, np=np, id=i, form=r.choice(['', 'pos']), ktr=r.choice(['', '', 'max', 'c3'])))
                    for l in sorted(set([-1, 0, abs(s), L, r.randint(0, L+2)])):
                        ops.append(dict(op='modes', a=O(i), l=l, id=i+40+l, form=r.choice(['', 'pos']), ktr=r.choice(['', '', '', 'min'])))
                    i += 1
                qsh = r.choice([[3], [2, 2], [1], [], lead, lead])
                ops.append(dict(op='eval', a=O(1), rot=rotors(r, int(math.prod(qsh))), qsh=qsh))
                h.add(ops)
    # functions without any modes: ell_max below |s|
    for s in (-4, -3, -2, 2, 3, 4):
        L = r.randint(1, abs(s) - 1)
        h.add([M(1, s, L, r.choice([[], [2]]), r.randrange(10**6), trn=r.choice(['none', 'max']), lmin=0), dict(op='grid', a=O(1), nt=0, np=0, id=2), dict(op='grid', a=O(1), nt=2*L+2, np=2*L+3, id=3),
               dict(op='modes', a=O(2), l=r.randint(0, L), id=4), dict(op='modes', a=O(3), l=-1, id=5), dict(op='eval', a=O(1), rot=rotors(r, 2), qsh=[2]), dict(op='view', a=O(4), id=6)])
    # arithmetic on the grid and on the modes agree; views and results are as good as new objects
    for i in range(10 if quick else 80):
        s1, s2 = r.randint(-2, 2), r.randint(-2, 2)
        L1, L2 = max(1, abs(s1)) + r.randint(0, 1), max(1, abs(s2)) + r.randint(0, 1)
        n = 2*(L1+L2) + 1 + r.randint(0, 2)
        ops = [M(1, s1, L1, [], r.randrange(10**6)), M(2, s2, L2, [2] if i % 2 else [], r.randrange(10**6)), M(3, s1, L2 + 1, [], r.randrange(10**6)),
               dict(op='grid', a=O(1), nt=n, np=n, id=4), dict(op='grid', a=O(2), nt=n, np=n, id=5),
               dict(op='mul', form='op', a=O(4), b=O(5), id=6), dict(op='modes', a=O(6), l=L1+L2, id=7),
               dict(op='mul', form='op', a=O(1), b=O(2), id=8) if i % 2 == 0 else dict(op='conj', form='bar', a=O(2), id=8),
               dict(op='conj', form='bar', a=O(4), id=9), dict(op='modes', a=O(9), l=L1, id=10),
               dict(op='conj', form='inplace', a=O(1), id=0), dict(op='grid', a=O(1), nt=n, np=n, id=11), dict(op='neg', form='op', a=O(11), id=12),
               dict(op='modes', a=O(12), l=-1, id=13), dict(op='eval', a=O(1), rot=rotors(r, 2), qsh=[2]),
               dict(op='trunc', a=O(2), n=max(1, L2 - 1), id=14) if max(1, L2-1) >= abs(s2) else dict(op='view', a=O(2), id=14),
               dict(op='grid', a=O(14), nt=n, np=n+1, id=15), dict(op='modes', a=O(15), l=2 if abs(s2) <= 2 else 3, id=16)]
        h.add(ops)
    # real and imaginary parts on the grid and of the modes
    for i in range(4 if quick else 30):
        L = r.randint(1, 4)
        n = 2*L + 1 + r.randint(0, 2)
        h.add([M(1, 0, L, r.choice([[], [2]]), r.randrange(10**6)), dict(op='grid', a=O(1), nt=n, np=n+i % 2, id=2), dict(op='real', a=O(2), id=3), dict(op='imag', a=O(2), id=4),
               dict(op='modes', a=O(3), l=L, id=5), dict(op='modes', a=O(4), l=L, id=6), dict(op='modes', a=O(3), l=-1, id=7), dict(op='sub', form='op', a=O(3), b=O(4), id=8),
               dict(op='modes', a=O(8), l=L, id=9), dict(op='mul', form='op', a=O(3), b=num(r), id=13), dict(op='modes', a=O(13), l=L, id=14),
               dict(op='real', a=O(1), id=10), dict(op='imag', a=O(1), id=11), dict(op='grid', a=O(11), nt=n, np=n, id=12)])
    # evaluation: leading dimensions and dimensions of the rotors, alike or not
    shs = [[], [1], [2], [3], [2, 3], [3, 2], [2, 2], [1, 2], [2, 1, 3]]
    for lead in shs:
        for qsh in shs:
            if lead and qsh and lead != qsh and r.random() < (.6 if quick else 0):
                continue
            s = r.randint(-2, 2)
            L = max(1, abs(s)) + (0 if len(lead) + len(qsh) > 2 else r.randint(0, 2))
            ops = [M(1, s, L, lead, r.randrange(10**6), kind=r.choice(KINDS_M))]
            if lead:
                ops.append(dict(op='take', a=O(1), n=lead[0]-1, id=2))
            for i in range(len(ops)):
                ops.append(dict(op='eval', a=O(i+1), rot=rotors(r, int(math.prod(qsh))), qsh=qsh))
            # the number of modes as the shape of the rotors
            if not quick or r.random() < .2:
                ops.append(dict(op='eval', a=O(1), rot=rotors(r, (L+1)**2), qsh=[(L+1)**2]))
            h.add(ops)
    h.add([dict(op='tp', nt=nt, np=np) for nt in range(1, 8) for np in range(1, 8)])
    return h.plan


UFUNCS = '''abs absolute acos acosh add arccos arccosh arcsin arcsinh arctan arctan2 arctanh asin asinh atan atan2 atanh bitwise_and
bitwise_count bitwise_invert bitwise_left_shift bitwise_not bitwise_or bitwise_right_shift bitwise_xor cbrt ceil conj conjugate copysign
cos cosh deg2rad degrees divide divmod equal exp exp2 expm1 fabs float_power floor floor_divide fmax fmin fmod frexp gcd greater
greater_equal heaviside hypot invert isfinite isinf isnan isnat lcm ldexp left_shift less less_equal log log10 log1p log2 logaddexp
logaddexp2 logical_and logical_not logical_or logical_xor matmul matvec maximum minimum mod modf multiply negative nextafter not_equal
positive pow power rad2deg radians reciprocal remainder right_shift rint sign signbit sin sinh spacing sqrt square subtract tan tanh
true_divide trunc vecdot vecmat'''.split()
UNARY = set('''abs absolute acos acosh arccos arccosh arcsin arcsinh arctan arctanh asin asinh atan atanh bitwise_count bitwise_invert
bitwise_not cbrt ceil conj conjugate cos cosh deg2rad degrees exp exp2 expm1 fabs floor frexp invert isfinite isinf isnan isnat log log10
log1p log2 logical_not modf negative positive rad2deg radians reciprocal rint sign signbit sin sinh spacing sqrt square tan tanh trunc'''.split())
SUP_M = set('positive negative add subtract multiply divide true_divide conj conjugate absolute abs'.split())
CMP_M = set('not_equal equal logical_and logical_or isfinite isinf isnan'.split())
SUP_G = SUP_M | set('power pow sqrt square reciprocal'.split())
CMP_G = CMP_M | set('greater greater_equal less less_equal'.split())


def plan_refused(seed, quick):
    h = H()
    r = R(seed, 'ref')
    objs = [('M', M(1, 0, 2, [], 1)), ('M', M(1, -1, 2, [2], 2)), ('G', G(1, 0, [5, 5], 3, 'f', kind='pos')), ('G', G(1, 1, [5, 6], 4)),
            ('G', G(1, -2, [2, 5, 5], 5)), ('M', M(1, 2, 3, [2, 2], 6))]
    for k, o in objs if not quick else objs[:5]:
        sup, cmp = (SUP_M, CMP_M) if k == 'M' else (SUP_G, CMP_G)
        ops = [o, dict(op='copy', a=O(1), id=2)]
        for u in UFUNCS:
            if u in sup or u in cmp:
                continue
            if u in UNARY:
                ops.append(dict(op='bad', uf=u, me='__call__', a=O(1)))
            else:
                ops += [dict(op='bad', uf=u, me='__call__', a=O(1), b=O(2)), dict(op='bad', uf=u, me='__call__', a=O(1), b=num(r, dt='f')),
                        dict(op='bad', uf=u, me='__call__', a=num(r), b=O(1))]
        h.add(ops)
        ops = [o, dict(op='copy', a=O(1), id=2)]
        for u in sorted(sup):
            one = u in UNARY
            two = {} if one else dict(b=O(2))
            for me in ('outer', 'at', 'where', 'where-mask', 'dtype', 'casting', 'order', 'subok') + (() if one else ('reduce', 'accumulate', 'reduceat')):
                if one and me == 'outer':
                    continue
                ops.append(dict(op='bad', uf=u, me=me, a=O(1), **two))
            ops.append(dict(op='bad', uf=u, me='outM', a=O(1)))
            if not one:
                ops.append(dict(op='bad', uf=u, me='outer', a=O(1), b=num(r)))
        if k == 'M':
            ops += [dict(op='powf', a=O(1), e=e, form=f) for e in (2, 0.5) for f in ('op', 'uf')]
        else:
            ops += [dict(op='powf', a=O(1), e=e, form=f) for e in (0.5, -1.5, 2.25) for f in ("op", "uf")
                    if e != 0.5 or f == "uf"]   # Python hands a**0.5 over as np.sqrt
        h.add(ops)
        # tests and comparisons
        ops = [dict(o, kind='int'), dict(op='copy', a=O(1), id=2), dict(op='set', a=O(2), p=8, z=[7, 1]), dict(op='take', a=O(1), n=0, id=3)
               if o.get('lead') or len(o.get('sh', [])) > 2 else dict(op='view', a=O(1), id=3)]
        for u in sorted(cmp):
            if u in ('greater', 'greater_equal', 'less', 'less_equal') and o.get('dt') != 'f':
                continue
            if u in UNARY:
                ops.append(dict(op='cmp', uf=u, a=O(1)))
            else:
                for f in ('uf', 'op') if u not in ('logical_and', 'logical_or') else ('uf',):
                    ops += [dict(op='cmp', uf=u, form=f, a=O(1), b=O(2)), dict(op='cmp', uf=u, form=f, a=O(1), b=O(3)),
                            dict(op='cmp', uf=u, form=f, a=O(1), b=dict(val=[[1, 0]], sh=[], dt='f'))]
        ops += [dict(op='div', form='op', a=O(1), b=dict(val=[[0, 0]], sh=[], dt='f'), id=9), dict(op='cmp', uf='isfinite', a=O(9)),
                dict(op='cmp', uf='isnan', a=O(9)), dict(op='cmp', uf='isinf', a=O(9))]
        h.add(ops)
        # every spelling of the supported operations
        nz = dict(op='newM', id=4, s=o['s'], lmin=0, lmax=3, lead=[], seed=9, es=1, lm=1) if k == 'M' else dict(o, id=4, seed=9)
        ops = [o, nz]
        i = 10
        for op in ('add', 'sub', 'mul', 'div'):
            for f in ('op', 'uf', 'meth'):
                ops.append(dict(op=op, form=f, a=O(1), b=O(4), id=i))
                ops.append(dict(op=op, form=f, a=O(1), b=num(r), id=i+1))
                ops.append(dict(op=op, form=f, a=O(1), b=num(r, dt='f', kind='zero'), id=i+2)) if op != 'div' else None
                if f != 'meth':
                    ops.append(dict(op=op, form=f, a=num(r), b=O(1), id=i+3))
                i += 4
        for f in ('meth', 'meth2', 'bar', 'kw', 'np', 'uf'):
            ops.append(dict(op='conj', form=f, a=O(1), id=i))
            i += 1
        for op in ('neg', 'pos'):
            for f in ('op', 'uf'):
                ops.append(dict(op=op, form=f, a=O(1), id=i))
                i += 1
        for f in ('op', 'uf') + (('meth',) if k == 'G' else ()):
            ops.append(dict(op='abs', form=f, a=O(1), id=i))
            i += 1
        if k == 'G':
            for n in (2, 3, -1, 0, 1):
                for f in ('op', 'uf'):
                    if n >= 0 or o['dt'] == 'c':
                        ops.append(dict(op='pow', form=f, n=n, a=O(1), id=i))
                        i += 1
            for op in ('sqrt', 'square', 'recip'):
                ops.append(dict(op=op, form='uf', a=O(1), id=i))
                i += 1
        h.add(ops)
    return h.plan


def plan_copies(seed, quick):
    """every way to copy, followed by changes to the original and to the copy"""
    h = H()
    r = R(seed, 'cop')
    ways = [('copy', 0), ('copy.copy', 0), ('deepcopy', 0)] + [('pickle', n) for n in range(6)] + [('view', 0), ('all', 0), ('zeros_like', 0),
            ('empty_like', 0), ('npcopy', 0), ('ndarray', 0)]
    objs = [M(1, s, L, ld, 7, trn=t) for s, L, ld, t in ((0, 2, [], 'none'), (-2, 3, [2], 'max'), (1, 1, [2, 2], 'sum'), (3, 2, [], 'min'))]
    objs += [G(1, s, sh, 8, dt, trn=t) for s, sh, dt, t in ((0, [3, 3], 'f', 'none'), (-1, [4, 5], 'c', 'max'), (2, [2, 5, 7], 'c', 'sum'))]
    for o in objs:
        for w, n in ways + ([('ones_like', 0)] if o['op'] == 'newG' else []):
            ops = [o, dict(op=w, a=O(1), n=n, id=2, form=r.choice(['', 'slice'])), dict(op='set', a=O(1), p=r.randrange(30), z=[3, 4])]
            if w not in ('npcopy', 'ndarray'):
                ops += [dict(op='set', a=O(2), p=r.randrange(30), z=[5, 6]), dict(op='conj', form='inplace', a=O(1), id=0), dict(op='conj', form='bar', a=O(2), id=3),
                        dict(op='mul', form='iop', a=O(2), b=dict(val=[[2, 0]], sh=[], dt='f'), id=4), dict(op='conj', form='inplace', a=O(2), id=0),
                        dict(op='set', a=O(1), p=r.randrange(30), z=[7, 8]), dict(op='pos', form='op', a=O(2), id=5), dict(op='pos', form='op', a=O(1), id=6)]
                if o['op'] == 'newM' and o['s'] <= o['lmax']:
                    ops.append(dict(op='mul', form='op', a=O(2), b=O(2), id=7) if not o['lead'] else dict(op='norm', a=O(2), id=0))
            # set needs a mode to write to
            if o['op'] == 'newM' and abs(o['s']) > o['lmax']:
                ops = [x for x in ops if x['op'] != 'set']
            h.add(ops)
    return h.plan
