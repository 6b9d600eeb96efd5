"""One function per property."""
import json, random, re
import plans_core as pc
import plans_fields as pf
import plans_threads as pt
import plans_wigner as pw
from harness import Broken

CHECKS = {}


def prop(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


def conform(c, driver, module, plan, shards=2, env=None, cfg=None, split=None):
    recs = c.drive(driver, plan, shards=shards, env=env)
    c.validate(module, recs, plan, driver, cfg=cfg, split=split)
    return recs


def replay(c, f, violations):
    """Re-execute only the histories of a replay file, and read them against the specification."""
    drv = c.drive
    plans = [v['plan'] for v in violations if v['plan']]
    seen = {}
    for p in plans:
        seen.setdefault(p['h'], p)
    names = {v['driver'] for v in violations}

    def only(driver, plan, **k):
        if driver not in names:
            return []
        ps = [p for p in plan if p['h'] in seen and p == seen[p['h']]] or list(seen.values())
        plan[:] = ps
        return drv(driver, ps, **k)
    c.drive = only
    if f(c):
        return 1
    c.log('not reproduced by these histories alone: they depend on what ran before; running everything again')
    c.drive = drv
    return f(c)


def wigner_laws(c):
    return c.background(c.model_check, 'MCWigner', 'MCWigner' if c.quick else 'MCWignerDeep', workers=3)


@prop('C05')
def c05(c):
    m = wigner_laws(c)
    plan = pw.plan_D(c.seed, c.quick)
    conform(c, 'wigner', 'TWigner', plan, split=150)
    m.join()
    return c.finish('model_checking')


@prop('C06')
def c06(c):
    m = wigner_laws(c)
    conform(c, 'wigner', 'TWigner', pw.plan_Dm(c.seed, c.quick), split=150)
    m.join()
    return c.finish('model_checking')


@prop('C08')
def c08(c):
    m = wigner_laws(c)
    conform(c, 'wigner', 'TWigner', pw.plan_SWSH(c.seed, c.quick), split=150)
    m.join()
    return c.finish('model_checking')


@prop('C01')
def c01(c):
    m = c.background(c.model_check, 'MCIndex', 'MCIndex' if c.quick else 'MCIndexDeep', workers=2)
    conform(c, 'index', 'TIndex', pc.plan_index(c.seed, c.quick), split=400)
    m.join()
    return c.finish('model_checking')


@prop('C02')
def c02(c):
    conform(c, 'index', 'TIndex', pc.plan_coef(c.seed, c.quick), split=200)
    return c.finish('model_checking', extra=dict(exhaustive=True))


def plans_of(out):
    seen = dict.fromkeys(re.findall(r'^"PLAN (.*)"$', out, re.M))
    return [json.loads(json.loads('"%s"' % m)) for m in seen]


@prop('C03')
def c03(c):
    m = c.background(c.model_check, 'MCThreeJ', 'MCThreeJLaws', workers=3)
    conform(c, 'threej', 'TThreeJ', pc.plan_3j(c.seed, c.quick))
    m.join()
    return c.finish('model_checking')


@prop('C04')
def c04(c):
    pairs = plans_of(c.model_check('MCThreeJ', workers=4))
    conform(c, 'threej', 'TThreeJ', pc.plan_calc(c.seed, c.quick, pairs))
    return c.finish('model_checking')


@prop('C07')
def c07(c):
    bs = plans_of(c.model_check('MCPolicy', 'MCPolicy' if c.quick else 'MCPolicyDeep', workers=4))
    if not c.quick:
        bs = sample(c.seed, bs, 5000)
    conform(c, 'wigner', 'TWigner', pw.plan_policy(c.seed, c.quick, bs), split=150)
    return c.finish('model_checking')


def sample(seed, xs, n):
    xs = sorted(xs, key=json.dumps)
    return xs if len(xs) <= n else random.Random(seed).sample(xs, n)


@prop('C09')
def c09(c):
    bs = plans_of(c.model_check('MCH', 'MCH' if c.quick else 'MCHDeep', workers=8))
    conform(c, 'hpow', 'TH', pc.plan_H(c.seed, c.quick, sample(c.seed, bs, 300 if c.quick else 6000)), split=150)
    return c.finish('model_checking')


@prop('C10')
def c10(c):
    conform(c, 'hpow', 'TH', pc.plan_pow(c.seed, c.quick), split=400)
    return c.finish('model_checking')


# ------------------------------------------------------------------ Modes and Grid objects
def machine(c, ops, kinds, leads, num, depth=12, maxobj=9, ltop=4):
    """Random behaviours of the heap machine MCFields with the given alphabet."""
    cfg = open(c.spec + '/MCFields.cfg').read()
    for k, v in (('Ops', ops), ('Kinds', kinds), ('Leads', leads)):
        cfg = re.sub(r'%s <- \w+' % k, '%s <- %s' % (k, v), cfg)
    cfg = re.sub(r'DEPTH = \d+', 'DEPTH = %d' % depth, cfg)
    cfg = re.sub(r'MAXOBJ = \d+', 'MAXOBJ = %d' % maxobj, cfg)
    cfg = re.sub(r'LTOP = \d+', 'LTOP = %d' % ltop, cfg)
    bs = plans_of(c.simulate('MCFields', 'MCFields', num, 8*depth, c.seed, text={'MCFields.cfg': cfg}))
    if len(bs) < num // 2:
        raise Broken('only %d behaviours' % len(bs))
    return bs


def fields(c, plan, shards=2):
    conform(c, 'fields', 'TFields', plan, shards=shards)


def field_laws(c, *invariants, L=None, workers=3):
    """The laws that make the definitions in spec/Fields the operations on functions."""
    L = L or (1 if c.quick else 2)
    cfg = re.sub(r'INVARIANTS .*', 'INVARIANTS ' + ' '.join(invariants), open(c.spec + '/MCFieldLaws.cfg').read())
    cfg = re.sub(r'LL = \d+', 'LL = %d' % L, cfg)
    cfg = re.sub(r'SS = \d+', 'SS = %d' % L, cfg)
    return c.background(c.model_check, 'MCFieldLaws', 'MCFieldLaws', workers=workers, text={'MCFieldLaws.cfg': cfg})


@prop('C11')
def c11(c):
    fields(c, pf.plan_new(c.seed, c.quick))
    return c.finish('model_checking')


@prop('C12')
def c12(c):
    m = field_laws(c, 'LinLaws')
    plan = pf.renumber(pf.plan_arrays(c.seed, c.quick, 'M'), pf.plan_sizes(c.seed, c.quick, 'linear'), pf.plan_again(c.seed, c.quick, 'modes'), pf.plan_picks(c.seed, c.quick, 'linear'))
    bs = machine(c, 'LinearOps', 'OnlyM', 'ManyLeads', 150 if c.quick else 2500)
    fields(c, plan + pf.behaviours(c.seed, bs, len(plan) + 1))
    m.join()
    return c.finish('model_checking')


@prop('C13')
def c13(c):
    m = field_laws(c, 'ConjLaws', L=2)
    plan = pf.renumber(pf.plan_sizes(c.seed, c.quick, 'conj'), pf.plan_conj(c.seed, c.quick), pf.plan_again(c.seed, c.quick, 'conj'), pf.plan_picks(c.seed, c.quick, 'conj'))
    bs = machine(c, 'ConjOps', 'OnlyM', 'ManyLeads', 150 if c.quick else 2500)
    fields(c, plan + pf.behaviours(c.seed, bs, len(plan) + 1))
    m.join()
    return c.finish('model_checking')


@prop('C14')
def c14(c):
    m = field_laws(c, 'ProductLaws', 'Norms', 'Pointwise')
    plan = pf.renumber(pf.plan_sizes(c.seed, c.quick, 'products'), pf.plan_products(c.seed, c.quick), pf.plan_again(c.seed, c.quick, 'products'), pf.plan_picks(c.seed, c.quick, 'products'))
    bs = machine(c, 'ProductOps', 'OnlyM', 'SomeLeads', 30 if c.quick else 500, depth=7)
    fields(c, plan + pf.behaviours(c.seed, bs, len(plan) + 1))
    m.join()
    return c.finish('model_checking')


@prop('C15')
def c15(c):
    m = field_laws(c, 'DerivLaws', 'Leibniz')
    plan = pf.renumber(pf.plan_sizes(c.seed, c.quick, 'derivs'), pf.plan_derivs(c.seed, c.quick), pf.plan_again(c.seed, c.quick, 'derivs'), pf.plan_picks(c.seed, c.quick, 'derivs'))
    bs = machine(c, 'DerivOps', 'OnlyM', 'ManyLeads', 60 if c.quick else 1500, depth=9)
    fields(c, plan + pf.behaviours(c.seed, bs, len(plan) + 1))
    m.join()
    return c.finish('model_checking')


@prop('C16')
def c16(c):
    bs = plans_of(c.model_check('MCConv', 'MCConv' if c.quick else 'MCConvDeep', workers=8))
    conform(c, 'conv', 'TConv', pc.plan_conv(c.seed, c.quick, sample(c.seed, bs, 1500 if c.quick else 20000)))
    return c.finish('model_checking')


@prop('C17')
def c17(c):
    bs = machine(c, 'AllOps', 'AllKinds', 'SomeLeads', 150 if c.quick else 2500, depth=14)
    plan = pf.renumber(pf.plan_alias(c.seed, c.quick), few(c.seed, pf.plan_again(c.seed, c.quick, 'conj derivs grids grid modes products'), 60 if c.quick else 600), pf.plan_picks(c.seed, c.quick, 'alias'))
    fields(c, plan + pf.behaviours(c.seed, bs, len(plan) + 1), shards=3)
    return c.finish('model_checking')


@prop('C18')
def c18(c):
    plan = pf.renumber(pf.plan_copies(c.seed, c.quick), pf.plan_picks(c.seed, c.quick, 'copies'))
    bs = machine(c, 'CopyOps', 'AllKinds', 'ManyLeads', 80 if c.quick else 2000)
    fields(c, plan + pf.behaviours(c.seed, bs, len(plan) + 1))
    return c.finish('model_checking')


@prop('C19')
def c19(c):
    m = field_laws(c, 'EvalLaws', 'GridLaw', L=2)
    fields(c, pf.renumber(pf.plan_sizes(c.seed, c.quick, 'eval'), pf.plan_grids(c.seed, c.quick), pf.plan_again(c.seed, c.quick, 'grids'), pf.plan_picks(c.seed, c.quick, 'grids')))
    m.join()
    return c.finish('model_checking')


@prop('C20')
def c20(c):
    plan = pf.renumber(pf.plan_arrays(c.seed, c.quick, 'G'), pf.plan_again(c.seed, c.quick, 'grid'), pf.plan_picks(c.seed, c.quick, 'grid'))
    bs = machine(c, 'GridOps', 'OnlyG', 'ManyLeads', 150 if c.quick else 2500)
    fields(c, plan + pf.behaviours(c.seed, bs, len(plan) + 1))
    return c.finish('model_checking')


@prop('C21')
def c21(c):
    fields(c, pf.plan_refused(c.seed, c.quick))
    return c.finish('model_checking')


@prop('C22')
def c22(c):
    conform(c, 'hpow', 'TH', pc.plan_qang(c.seed, c.quick))
    return c.finish('model_checking')


def few(seed, plan, n):
    """n histories of a plan, at even distances, renumbered"""
    step = max(1, len(plan) // n)
    return [dict(p, h=i+1) for i, p in enumerate(plan[seed % step::step])]


@prop('C23')
def c23(c):
    """All compiled functions with their array accesses checked: an access outside raises, and the event is rejected."""
    q, s, k = c.quick, c.seed, 1 if c.quick else 12
    r = random.Random(s)
    reqs = [[[r.randint(0, 4), r.randint(0, 4), r.randint(-4, 4), r.randint(-4, 4)] for _ in range(2)] for _ in range(40 * k)]
    jobs = [('wigner', 'TWigner', few(s, pw.plan_D(s, q), 80 * k), 150), ('wigner', 'TWigner', few(s, pw.plan_Dm(s, q), 30 * k), 150),
            ('wigner', 'TWigner', few(s, pw.plan_SWSH(s, q), 50 * k), 150),
            ('threej', 'TThreeJ', few(s, pc.plan_3j(s, q), 160 * k), None), ('threej', 'TThreeJ', pc.plan_calc(s, q, reqs), None),
            ('hpow', 'TH', few(s, pc.plan_H(s, q, []), 40 * k), 150), ('hpow', 'TH', few(s, pc.plan_pow(s, q), 40 * k), 400),
            ('index', 'TIndex', few(s, pc.plan_index(s, q), 120 * k), 400), ('index', 'TIndex', few(s, pc.plan_coef(s, q), 60 * k), 200),
            ('fields', 'TFields', few(s, pf.plan_products(s, q), 25 * k), None), ('fields', 'TFields', few(s, pf.plan_derivs(s, q), 12 * k), None),
            ('fields', 'TFields', few(s, pf.plan_grids(s, q), 20 * k), None)]
    merged = {}
    for d, m, plan, split in jobs:
        merged.setdefault((d, m), [[], 400])
        merged[d, m][0] += plan
        merged[d, m][1] = min(merged[d, m][1], split or 400)
    runs = []
    for (d, m), (plan, split) in merged.items():
        plan = [dict(p, h=i+1) for i, p in enumerate(plan)]
        for p in plan:
            p.pop('g', None)
        runs.append((d, m, plan, split, c.background(c.drive, d, plan, shards=1, env=dict(NUMBA_BOUNDSCHECK='1'))))
    for d, m, plan, split, t in runs:
        c.validate(m, t.join(), plan, d, split=split)
    return c.finish('model_checking')


@prop('C24')
def c24(c):
    """Calls made at the same time: every thread's history on its own is one that the specification allows."""
    c.refuted('MCThreads', 'MCThreadsShared', 'Alone')
    two, three = plans_of(c.model_check('MCThreads')), plans_of(c.model_check('MCThreads', 'MCThreads3'))
    plan = pt.plan_threads(c.seed, c.quick, two, three)
    byh = {p['h']: p for p in plan}
    modules = dict(wigner='TWigner', threej='TThreeJ', hpow='TH', index='TIndex', conv='TConv', fields='TFields')
    recs, parent, seen = {}, {}, set()
    for r in c.drive('threads', plan, timeout=800):
        c.points += r['ev']['points']
        for sub, ev in zip(byh[r['h']]['subs'], r['ev']['subs']):
            key = sub['drv'] + json.dumps(ev)
            if key in seen:     # word for word what another schedule gave: judged once
                continue
            seen.add(key)
            h = len(parent) + 1
            parent[h] = byh[r['h']]
            recs.setdefault(sub['drv'], []).append(dict(h=h, ev=ev))
    for drv, rs in sorted(recs.items()):
        c.validate(modules[drv], rs, parent, 'threads', split=dict(wigner=150, hpow=150, index=400).get(drv))
    c.log(len(plan), 'concurrent histories,', c.points, 'switching points,', len(parent), 'different histories of a thread')
    return c.finish('model_checking', extra=dict(concurrent_histories=len(plan), switching_points=c.points, different_thread_histories=len(parent)))
