"""Concurrent calls: which histories run side by side, and which thread goes on when."""
import copy, random
import plans_core as pc
import plans_fields as pf
import plans_wigner as pw

MUTATING = ('iop', 'inplace')


def twin(ops, r):
    """the same calls with arguments of the same sizes and other values"""
    out = copy.deepcopy(ops)
    for op in out:
        o = op['op']
        if o in ('D', 'Y', 'Yg') and op.get('rot'):
            if op.get('rf') == 'euler':
                op['rot'] = [r.uniform(-3, 3) for _ in range(3)]
            elif o == 'Yg' or op['rf'] == 'qs':
                op['rot'] = pw.randoms(r, len(op['rot']))
            else:
                op['rot'] = pw.randoms(r, 1)[0]
        elif o == 'Dm':
            op['q'] = pw.randoms(r, 1)[0]
        elif o in ('w3j', 'cg'):
            op['ms'] = [[-m for m in x] for x in op['ms'][::-1]]
        elif o == 'calc':
            op.update(j2=op['j2'], j3=op['j3'], m2=-op['m2'], m3=-op['m3'])
        elif o == 'hcall':
            op['c'] = [-x for x in op['c']]
        elif o == 'pow':
            op['z'] = [[-y, x] for x, y in op['z']]
        elif o == 'qang':
            op['q'] = [2*x for x in reversed(op['q'])]
        elif o == 'eval' and op.get('rot'):
            op['rot'] = pf.rotors(r, len(op['rot']))
        if 'seed' in op:
            op['seed'] = r.randrange(10**6)
        for k in 'ab':
            if isinstance(op.get(k), dict) and 'seed' in op[k]:
                op[k]['seed'] = r.randrange(10**6)
    return out


def light(h):
    """small enough to be run and judged often"""
    n = 0
    for op in h['ops']:
        n += len(op.get('rot', ())) * 4 + len(op.get('ms', ())) + op.get('M', 0)
        if op['op'] == 'D' and op['xf'] == 'list':
            n += 4 * len(op['ix'])
            if max(i[0] for i in op['ix']) > 16:
                return False
        if op['op'] == 'D' and op['xf'] == 'ell':
            n += 20 * op['ix']
        if op['op'] == 'Dm':
            if op['hi'] > 8:
                return False
            n += 20
        if op['op'] in ('w3j', 'cg') and max(op['j']) > 30:
            return False
        if op.get('nmax', 0) > 6 or op.get('lmax', 0) > 5 or op.get('hi', 0) > 40 or op['op'] in ('flag', 'coef', 'tp'):
            return False
        if op['op'] == 'calc':
            n += 2
            if max(op['j2'], op['j3']) > 10:
                return False
        n += 1
    return n < 130


def mutates(op):
    return op.get('form') in MUTATING or op['op'] in ('set', 'setitem')


def shared(r):
    """objects several threads read"""
    s1, s2 = r.randint(-2, 2), r.randint(-2, 2)
    L1, L2 = max(1, abs(s1)) + r.randint(0, 1), max(1, abs(s2)) + r.randint(0, 1)
    pre = [pf.M(1, s1, L1, r.choice([[], [2]]), r.randrange(10**6)), pf.M(2, s2, L2, [], r.randrange(10**6)), pf.M(3, s1, L1 + 1, [], r.randrange(10**6)),
           dict(op='grid', a=pf.O(1), nt=2*L1+1, np=2*L1+2, id=4)]

    def ops():
        out = []
        i = 10
        for _ in range(r.randint(2, 4)):
            i += 1
            out.append(r.choice([dict(op='mul', form=r.choice(['op', 'uf']), a=pf.O(1), b=pf.O(2), id=i), dict(op='add', form='op', a=pf.O(1), b=pf.O(3), id=i),
                                 dict(op='sub', form='op', a=pf.O(3), b=pf.O(1), id=i), dict(op='conj', form='bar', a=pf.O(r.choice([1, 4])), id=i),
                                 dict(op='norm', a=pf.O(r.choice([1, 3])), id=i), dict(op='neg', form='op', a=pf.O(1), id=i), dict(op='copy', a=pf.O(r.choice([1, 4])), id=i),
                                 dict(op='grid', a=pf.O(1), nt=2*L1+1, np=2*L1+1, id=i), dict(op='modes', a=pf.O(4), l=L1, id=i),
                                 dict(op='eval', a=pf.O(1), rot=pf.rotors(r, 2), qsh=[2]), dict(op='trunc', a=pf.O(3), n=L1, id=i)]))
        return out
    return pre, [ops(), ops()]


def plan_threads(seed, quick, two, three):
    r = random.Random(seed*101 + 24)
    k = 1 if quick else 8
    schedules = 12 if quick else 40
    src = [('wigner', pw.plan_D(seed, True), 26), ('wigner', pw.plan_Dm(seed, True), 26), ('wigner', pw.plan_SWSH(seed, True), 26),
           ('wigner', pw.plan_policy(seed, True, ['vi', 'iv', 'iiv', 'i', 'vvi'] * 20)[1:], 24),
           ('threej', pc.plan_3j(seed, True), 16), ('threej', pc.plan_calc(seed, True, []), 16),
           ('hpow', pc.plan_H(seed, True, []), 20), ('hpow', pc.plan_pow(seed, True), 16), ('hpow', pc.plan_qang(seed, True), 8),
           ('index', pc.plan_index(seed, True), 20),
           ('conv', pc.plan_conv(seed, True, []), 16),
           ('fields', pf.plan_products(seed, True), 8), ('fields', pf.plan_derivs(seed, True), 5), ('fields', pf.plan_grids(seed, True), 12),
           ('fields', pf.plan_arrays(seed, True, 'M'), 14), ('fields', pf.plan_arrays(seed, True, 'G'), 8), ('fields', pf.plan_conj(seed, True), 8),
           ('fields', pf.plan_copies(seed, True), 8), ('fields', pf.plan_new(seed, True), 6)]
    out = []

    def add(drv, subs, **kw):
        subs = [dict(drv=drv, ops=o) for o in subs]
        b = len(out) + 1
        for i in range(schedules):
            seq = r.choice(two if len(subs) == 2 else three)
            mode, q = r.choice([('line', 1), ('line', 1), ('line', 2), ('line', 3), ('line', 7), ('instr', 5), ('instr', 13), ('instr', 40)])
            out.append(dict(h=len(out) + 1, b=b, subs=subs, sched=seq, q=q, mode=mode, g=drv, **kw))
    for drv, plan, n in src:
        good = [h for h in plan if light(h)]
        for h in r.sample(good, min(n*k, len(good))):
            ops = h['ops']
            if drv == 'fields' and len(ops) > 14:
                ops = ops[:14]
            subs = [ops, twin(ops, r)]
            if r.random() < .4:      # other sizes
                like = [g for g in good if g['ops'][-1]['op'] == ops[-1]['op']]
                subs = [ops, r.choice(like or good)['ops'][:14]]
            elif r.random() < .2:
                subs.append(twin(ops, r))
            add(drv, subs)
    for i in range(10*k):      # a calculator of two threads
        pre = [dict(op='hnew', id=1, impl=['wedge', 'full'][i % 2], nmax=r.randint(0, 5))]
        call = lambda sh: dict(zip(('c', 's'), pc.angles(r, sh[0] if sh else 1, True)), op='hcall', id=1, ws=0, sh=sh, ssh=sh)
        sh = r.choice([[], [2], [1]])
        add('hpow', [[call(sh), call(r.choice([sh, [3]]))], [call(sh), call(sh)]], pre=pre)
    for _ in range(16*k):
        pre, subs = shared(r)
        add('fields', subs, pre=pre)
    return out
