"""Histories of Modes and Grid objects.

A plan's history has 'ops'; every op is executed on the live objects, and recorded with its result, the
memory the result shares, and every live object it changed.
"""
import copy, operator, pickle
import numpy as np
import quaternion
import spherical_functions as sf
from common import C, Cs, F, Fs, exname, reuse


def c0(t):
    return 0


def c3(t):
    return 3


def c9(t):
    return 9


TRUNC = dict(sum=sum, max=max, min=min, c0=c0, c3=c3, c9=c9)
NAMES = {id(f): n for n, f in TRUNC.items()}
BIN = dict(add=(operator.add, operator.iadd, np.add), sub=(operator.sub, operator.isub, np.subtract),
           mul=(operator.mul, operator.imul, np.multiply), div=(operator.truediv, operator.itruediv, np.divide))
METH = dict(add='add', sub='subtract', mul='multiply', div='divide')
UFUNC = dict(neg=np.negative, pos=np.positive, conj=np.conjugate, abs=np.absolute, square=np.square, recip=np.reciprocal,
             sqrt=np.sqrt, pow=np.power)
DERIV = dict(L2='Lsquared', Lz='Lz', Lp='Lplus', Lm='Lminus', R2='Rsquared', Rz='Rz', Rp='Rplus', Rm='Rminus',
             eth='eth', ethbar='ethbar')


def values(sh, seed, kind, dt='c'):
    r = np.random.RandomState(seed % 2**32)
    n = int(np.prod(sh, dtype=int))
    z = r.normal(size=n) + 1j * r.normal(size=n)
    if 'int' in kind:
        z = r.randint(-3, 4, size=n) + 1j * r.randint(-3, 4, size=n)
    elif 'sparse' in kind:
        z = z * (r.random_sample(n) < 0.25)
    elif 'one' in kind:
        z = z * 0
        z[r.randint(n)] = 1
    elif 'zero' in kind:
        z = z * 0
    elif 'wide' in kind:
        z = z * 2.0**r.randint(-12, 12, size=n)
    elif 'pos' in kind:
        z = abs(z) + 0.5 + 0j
    elif 'away' in kind:       # no number near zero
        z = z / abs(z) * (0.5 + r.random_sample(n))
    elif 'cancel' in kind and n > 1:     # no number is zero, the sum is
        z = r.randint(1, 4, size=n) + 0j
        z[:n//2] *= -1
        z[n-1] -= z.sum()
        z[n-1] = z[n-1] or -z[:n-1].sum()
        if z[n-1] == 0:
            z[0], z[n-1] = z[0] + 5, -5
    if 'real' in kind:
        z = z.real + 0j
    if 'tiny' in kind:         # measured in large units, or in small ones
        z = z * 2.0**-52
    if 'huge' in kind:
        z = z * 2.0**24
    z = z.reshape(sh)
    return z.real.copy() if dt == 'f' else z


def describe(o):
    d = dict(k='', s=0, L=0, tr='none', dt='', sh=list(np.shape(o)), v=[])
    if isinstance(o, (sf.Modes, sf.Grid)):
        d['k'] = 'M' if isinstance(o, sf.Modes) else 'G'
        d['s'] = o.s if isinstance(o.s, (int, np.integer)) else -99
        d['s'] = int(d['s'])
        t = getattr(o, '_metadata', {}).get('multiplication_truncator')
        d['tr'] = 'none' if t is None else NAMES.get(id(t), 'other')
        if d['k'] == 'M':
            ok = o.spin_weight == o.s and o.ell_min == 0 and o.n_modes == o.shape[-1:][0] if o.ndim else False
            d['L'] = int(o.ell_max) if ok and o.ell_max is not None else -1
        else:
            ok = o.ndim >= 2 and o.spin_weight == o.s and (o.n_theta, o.n_phi) == o.shape[-2:]
            d['L'] = 0 if ok else -1
    elif isinstance(o, (np.ndarray, np.generic, float, complex, int)):
        d['k'] = 'A'
    else:
        d['k'] = type(o).__name__
        return d
    a = np.array(o, subok=False)
    if a.dtype == bool:
        d.update(k='B' if type(o) in (np.ndarray, np.bool_) else 'other', dt='b', v=[int(x) for x in a.ravel()])
    elif a.dtype.kind in 'cf':
        d.update(dt=a.dtype.kind, v=Cs(a))
        if a.dtype.itemsize != (16 if a.dtype.kind == 'c' else 8):
            d['dt'] += str(a.dtype.itemsize)
    elif a.dtype.kind in 'iu':
        d.update(dt='i', v=Cs(a))
    else:
        d.update(dt=str(a.dtype))
    return d


NONE = dict(k='none', s=0, L=0, tr='none', dt='', sh=[], v=[], mem=[])


def fingerprint(o):
    a = np.array(o, subok=False)
    return (type(o), getattr(o, 's', None), getattr(o, 'ell_max', None),
            getattr(o, '_metadata', {}).get('multiplication_truncator'), a.shape, a.dtype, a.tobytes())


class Machine:
    def __init__(self):
        self.live, self.alias = {}, {}

    def get(self, i):
        return self.live[self.alias.get(i, i)]

    def operand(self, a):
        """-> (object, recorded operand, array to watch)"""
        if a.get('i'):
            i = self.alias.get(a['i'], a['i'])
            return self.live[i], dict(i=i), None
        sh = a.get('sh', [])
        if 'val' in a:
            z = np.array([complex(*x) for x in a['val']]).reshape(sh)
            if a.get('dt', 'c') == 'f':
                z = z.real.copy()
        else:
            z = values(sh, a['seed'], a.get('kind', 'n'), a.get('dt', 'c'))
        rec = dict(i=0, sh=list(sh), v=Cs(z), dt=a.get('dt', 'c'))
        if a.get('idt'):       # another type of numbers (all of them small integers)
            z = np.rint(np.real(z) * 3).clip(-7, 7)
            if a['idt'][0] in 'ub':
                z = abs(z)
            if a['idt'] == 'bool':
                z = z.clip(0, 1)
            if a.get('kind') not in ('zero', 'one', 'sparse', 'int'):
                z = z + (z == 0)
            z = np.asarray(z).astype(a['idt'])
            rec.update(v=Cs(z), dt='f')
            if not sh and a.get('py') == 'np':
                z = z[()]
        elif not sh:
            z = z.item()
            if a.get('py') == 'int':
                z = int(z.real)
            elif a.get('py') == 'np':
                z = np.complex128(z) if isinstance(z, complex) else np.float64(z)
            elif a.get('py') == '0d':
                z = np.array(z)
        elif a.get('py') == 'list':
            z = z.tolist()
        if isinstance(z, np.ndarray) and z.ndim:
            k = a.get('seed', 0) % 6
            if k == 1:
                z = np.asfortranarray(z)
            elif k == 2:
                y = np.empty((2,) + z.shape, dtype=z.dtype)
                y[1] = z
                z = y[1, ::1]
            elif k == 3:
                z = np.repeat(z, 2, axis=-1)[..., ::2]
            if a.get('seed', 0) % 4 == 0:
                z.flags.writeable = False
        return z, rec, z if isinstance(z, np.ndarray) else None

    def shares(self, r):
        if not isinstance(r, np.ndarray):
            return []
        out = []
        for i, o in self.live.items():
            try:
                if np.shares_memory(r, o, max_work=10**5):
                    out.append(i)
            except Exception:
                if np.may_share_memory(r, o):
                    out.append(i)
        return out

    def step(self, op):
        need = [op[k]['i'] for k in ('a', 'b') if k in op and op[k].get('i')] + ([op['o']] if op.get('o') else [])
        if any(self.alias.get(i, i) not in self.live for i in need):
            return dict(op=op['op'], skip=1)
        ev = dict(op=op['op'], form=op.get('form', ''), n=op.get('n', 0), o=0, tr=op.get('tr', ''), id=0, sc=0, x='',
                  res=dict(NONE), t=dict(NONE), ch=[])
        watch = []
        args = []
        for k in ('a', 'b'):
            if k in op:
                z, ev[k], w = self.operand(op[k])
                args.append(z)
                if w is not None:
                    watch.append((w, w.tobytes()))
        if op.get('o'):
            ev['o'] = self.alias.get(op['o'], op['o'])
        before = {i: fingerprint(o) for i, o in self.live.items()}
        try:
            r = getattr(self, 'do_' + op['op'], self.do_other)(op, ev, *args)
        except Exception as ex:
            r = None
            ev['x'] = exname(ex)
            ev['msg'] = str(ex)[:160]
        for w, b in watch:
            if w.tobytes() != b:
                ev['sc'] = 1
        for i, o in self.live.items():
            if fingerprint(o) != before[i]:
                ev['ch'].append(dict(id=i, d=describe(o)))
        tgt = ev['o'] or (ev['a']['i'] if op['op'] == 'set' else 0)
        if tgt:
            ev['t'] = describe(self.live[tgt])
        if r is not None and not ev['x']:
            ev['res'] = dict(describe(r), mem=self.shares(r))
            if isinstance(r, (sf.Modes, sf.Grid)) and op.get('id'):
                same = [i for i, o in self.live.items() if o is r]
                if same:
                    self.alias[op['id']] = same[0]
                else:
                    self.live[op['id']] = r
                    ev['id'] = op['id']
        return ev

    # ------------------------------------------------------------ construction
    def do_newM(self, op, ev):
        lmin, lmax = op['lmin'], op['lmax']
        n = op.get('nlast', (lmax + 1)**2 - lmin**2)
        z = values(op['lead'] + [n], op['seed'], op.get('kind', 'n'))
        if op.get('fortran'):
            z = np.asfortranarray(z)
        if op.get('strided'):
            y = np.empty(z.shape[:-1] + (2*n,), dtype=complex)
            y[..., ::2] = z
            z = y[..., ::2]
        ev.update(insh=list(z.shape), lmin=lmin, lmax=lmax, lm=op['lm'], es=op['es'], s=op['s'], npos=op.get('npos', 0),
                  trn=op.get('trn', 'none'), at=[])
        ev['in'] = Cs(z)
        kw, args = {}, []
        npos = op.get('npos', 0)
        full = [op['s'], lmin, lmax, 0, 0]
        args = full[:npos]
        if npos == 0 and op['es']:
            kw['spin_weight'] = op['s']
        if npos < 3 and (lmin or op.get('lminkw')):
            kw['ell_min'] = lmin
        if npos < 3 and op['lm']:
            kw['ell_max'] = lmax
        if ev['trn'] != 'none':
            kw['multiplication_truncator'] = TRUNC[ev['trn']]
        elif op.get('trnone'):
            kw['multiplication_truncator'] = None
        if op.get('asfloat'):      # pairs of real numbers
            z = np.ascontiguousarray(z).view(float)
        if op.get('list'):
            z = np.asarray(z).tolist()
        m = sf.Modes(z, *args, **kw)
        ev['at'] = [int(x) for x in (m.s, m.spin_weight, m.ell_min, m.ell_max, m.n_modes)]
        return m

    def do_reM(self, op, ev, a):
        kw = {}
        ev.update(es=op['es'], s=op['s'], trn=op.get('trn', ''))
        if op['es']:
            kw['spin_weight'] = op['s']
        if ev['trn']:
            kw['multiplication_truncator'] = TRUNC[ev['trn']]
        return sf.Modes(a, **kw)

    def do_newG(self, op, ev):
        sh = op['sh']
        z = values(sh, op['seed'], op.get('kind', 'away'), op['dt'])
        if op.get('fortran'):
            z = np.asfortranarray(z)
        ev.update(insh=list(sh), es=op['es'], s=op['s'], npos=op.get('npos', 0), dt=op['dt'], trn=op.get('trn', 'none'))
        ev['in'] = Cs(z)
        kw = {}
        args = [op['s'], 0, 0][:ev['npos']]
        if ev['npos'] == 0 and op['es']:
            kw['spin_weight'] = op['s']
        if ev['trn'] != 'none':
            kw['multiplication_truncator'] = TRUNC[ev['trn']]
        return sf.Grid(z, *args, **kw)

    # -------------------------------------------------------------- operations
    def binary(self, op, ev, a, b):
        f, g, u = BIN[op['op']]
        form = op['form']
        if form == 'op':
            return f(a, b)
        if form == 'iop':
            ev['o'] = ev['a']['i']
            return g(a, b)
        if form == 'uf':
            return u(a, b)
        if form == 'out':
            return u(a, b, out=self.get(op['o']))
        if form == 'outtuple':
            return u(a, b, out=(self.get(op['o']),))
        if form == 'meth':
            m = getattr(a, METH[op['op']])
            if op.get('tr'):
                return m(b, truncator=TRUNC[op['tr']]) if op.get('kw', 1) else m(b, TRUNC[op['tr']])
            return m(b)
        if form == 'fn':      # sf.multiply on the plain arrays
            ev['tr'] = 'sum'
            lf, lg = op.get('lf', 0), op.get('lg', 0)
            x, y = a.ndarray[..., lf**2:], b.ndarray[..., lg**2:]
            r, l0, l1, s = sf.multiply(x, lf, a.ell_max, a.s, y, lg, b.ell_max, b.s)
            m = sf.Modes(r, spin_weight=s, ell_min=l0, ell_max=l1)
            t = a._metadata.get('multiplication_truncator')
            if t is not None:
                m._metadata['multiplication_truncator'] = t
            return m
        raise SystemExit('DRIVER BUG form ' + form)

    do_add = do_sub = do_mul = do_div = binary

    def do_other(self, op, ev, a, *rest):
        o, form, n = op['op'], op.get('form', ''), op.get('n', 0)
        if o == 'pow':        # an integer power, as a number of any type
            n = [int, float, np.int64, np.float64, np.int8, int, np.array][(op.get('id', 0) + 2*op['a'].get('i', 0) + n) % 7](n)
        if o == 'trunc':
            n = [int, np.int64, int][(op.get('id', 0) + n) % 3](n)
        if o in DERIV:
            r = getattr(a, DERIV[o])      # eth and ethbar are properties
            return r if isinstance(r, np.ndarray) else r()
        if form == 'inplace' and o in ('real', 'imag'):
            f = getattr(a, '_%s_func' % o, None)
            if f is None:
                ev['skip'] = 1
                return None
            ev['o'] = ev['a']['i']
            return f(True)
        if form == 'inplace':
            ev['o'] = ev['a']['i']
            r = a.conjugate(inplace=True) if op.get('kw', 1) else a.conj(True)
            return r
        if form in ('out', 'outtuple'):
            t = self.get(op['o'])
            t = (t,) if form == 'outtuple' else t
            return UFUNC[o](a, n, out=t) if o == 'pow' else UFUNC[o](a, out=t)
        if form == 'uf':
            return UFUNC[o](a, op['e'] if 'e' in op else n) if o == 'pow' else UFUNC[o](a)
        if form == 'iop':     # g **= n
            ev['o'] = ev['a']['i']
            a **= n
            return a
        if o == 'neg':
            return -a
        if o == 'pos':
            return +a
        if o == 'conj':
            return {'meth': lambda: a.conjugate(), 'meth2': lambda: a.conj(), 'bar': lambda: a.bar, 'kw': lambda: a.conjugate(inplace=False),
                    'np': lambda: np.conj(a)}[form]()
        if o == 'real':
            return a.real
        if o == 'imag':
            return a.imag
        if o == 'norm':
            return a.norm()
        if o == 'trunc':
            return a.truncate_ell(n)
        if o == 'take':
            return a[n]
        if o == 'abs':
            return a.absolute() if form == 'meth' else abs(a)
        if o == 'pow':
            return a**(op['e'] if 'e' in op else n)
        if o == 'copy':
            return a.copy()
        if o == 'copy.copy':
            return copy.copy(a)
        if o == 'deepcopy':
            return copy.deepcopy(a)
        if o == 'pickle':
            return pickle.loads(pickle.dumps(a, n))
        if o == 'view':
            return a.view()
        if o == 'all':
            return a[...] if form != 'slice' else a[:]
        if o in ('zeros_like', 'ones_like', 'empty_like'):
            return getattr(np, o)(a)
        if o == 'npcopy':
            return np.copy(a) if form != 'array' else np.array(a, subok=False)
        if o == 'ndarray':
            return a.ndarray
        raise SystemExit('DRIVER BUG op ' + o)

    def do_powf(self, op, ev, a):      # a power that is no integer, or a power of a Modes
        ev.update(op='bad', uf='power', me='__call__')
        return a**op['e'] if op['form'] == 'op' else np.power(a, op['e'])

    def do_pick(self, op, ev, a):
        """leading dimensions: a part of them (key), another order (perm), another shape"""
        keep = 1 if isinstance(a, sf.Modes) else 2
        lead = a.shape[:-keep]
        kd = op['kd']
        key = op['key']
        ev['kd'] = kd
        if kd == 'key':
            ev['key'], real = [], []
            dims = iter(lead)
            for k in key + [['s', None, None, None]]*(len(lead) - sum(x[0] != 'n' for x in key)):
                if k[0] == 'n':
                    ev['key'].append(['n'])
                    real.append(None)
                    continue
                n = next(dims)
                if k[0] == 'i':
                    ev['key'].append(['i', k[1] % n])
                    real.append(k[1])
                elif k[0] == 's':
                    ev['key'].append(['s'] + list(range(*slice(*k[1:]).indices(n))))
                    real.append(slice(*k[1:]))
                else:          # 'f' a list, 'b' a mask of booleans
                    ev['key'].append(['s'] + [x % n for x in k[1:]])
                    x = np.array(k[1:], dtype=int)
                    if k[0] == 'b':
                        x = np.isin(np.arange(n), [y % n for y in k[1:]])
                        ev['key'][-1] = ['s'] + [int(y) for y in np.flatnonzero(x)]
                    real.append(x)
            real = tuple(real) + ((Ellipsis,) if op.get('dots') else ())
            return a[real[0] if len(real) == 1 else real]
        if kd == 'perm':       # key: from 1
            ev['key'] = key
            if len(key) == 2 and op.get('dots'):
                return a.swapaxes(0, 1) if key == [2, 1] else a
            return np.transpose(a, [k - 1 for k in key] + [len(lead) + i for i in range(keep)])
        ev['key'] = key
        return a.reshape(tuple(key) + a.shape[-keep:])

    def do_index(self, op, ev, a):
        ev.update(l=op['l'], m=op['m'], r=-1)
        ev['r'] = int(a.index(op['l'], op['m']))

    def do_set(self, op, ev, a):
        p = op['p'] % a.size
        if isinstance(a, sf.Modes):      # a mode that exists
            n = a.shape[-1]
            p = p // n * n + a.s**2 + p % n % (n - a.s**2)
        z = complex(*op['z'])
        if a.dtype.kind == 'f':
            z = z.real
        ev.update(p=p + 1, z=C(z))
        a[np.unravel_index(p, a.shape)] = z

    def do_grid(self, op, ev, a):
        ev.update(nt=op.get('nt', 0), np=op.get('np', 0), ktr=op.get('ktr', ''))
        kw = dict(multiplication_truncator=TRUNC[ev['ktr']]) if ev['ktr'] else {}
        if op.get('form') == 'pos':
            return a.grid(op['nt'] or None, op['np'] or None, **kw)
        if op.get('nt'):
            kw['n_theta'] = op['nt']
        if op.get('np'):
            kw['n_phi'] = op['np']
        return a.grid(**kw)

    def do_modes(self, op, ev, a):
        ev.update(l=op.get('l', -1), ktr=op.get('ktr', ''))
        kw = dict(multiplication_truncator=TRUNC[ev['ktr']]) if ev['ktr'] else {}
        return a.modes(**kw) if ev['l'] == -1 else a.modes(ev['l'], **kw) if op.get('form') == 'pos' else a.modes(ell_max=ev['l'], **kw)

    def do_eval(self, op, ev, a):
        rot = op['rot']
        q = np.array([np.quaternion(*x) for x in rot], dtype=np.quaternion).reshape(op['qsh'])
        q = reuse(q)
        if op['qsh'] == []:
            q = np.quaternion(*rot[0])
        f = quaternion.as_float_array(q).reshape(-1, 4)
        ev.update(qsh=list(op['qsh']), rot=[[F(c) for c in x] for x in f])
        b = quaternion.as_float_array(q).tobytes()
        r = a.evaluate(q)
        if quaternion.as_float_array(q).tobytes() != b:
            ev['sc'] = 1
        return r

    def do_tp(self, op, ev):
        ev.update(nt=op['nt'], np=op['np'], sh=[], r=[])
        r = sf.theta_phi(op['nt'], op['np'])
        ev.update(sh=list(r.shape), r=Fs(r))

    def do_bad(self, op, ev, a, b=None):
        u = getattr(np, op['uf'])
        ev.update(uf=op['uf'], me=op['me'])
        args = [a] if b is None else [a, b]
        if op.get('rev'):
            args = args[::-1]
        me = op['me']
        if me == '__call__':
            return u(*args)
        if me == 'reduce':
            return u.reduce(a)
        if me == 'accumulate':
            return u.accumulate(a)
        if me == 'outer':
            return u.outer(*args)
        if me == 'reduceat':
            return u.reduceat(a, [0, 1])
        if me == 'at':
            return u.at(a, 0) if u.nin == 1 else u.at(a, 0, b if not isinstance(b, np.ndarray) else 2.0)
        if me == 'where':
            return u(*args, where=np.array(True))
        if me == 'where-mask':
            return u(*args, where=np.zeros(np.shape(a), dtype=bool))
        if me == 'dtype':
            return u(*args, dtype=complex)
        if me == 'casting':
            return u(*args, casting='unsafe')
        if me == 'order':
            return u(*args, order='C')
        if me == 'subok':
            return u(*args, subok=False)
        if me == 'outM':          # plain operands, directed into an object
            z = np.ones(np.shape(a))
            return u(*([z] * u.nin), out=a)
        raise SystemExit('DRIVER BUG method ' + me)

    def do_cmp(self, op, ev, a, b=None):
        u = getattr(np, op['uf'])
        ev.update(uf=op['uf'], un=int(b is None))
        if b is None:
            return u(a)
        if op.get('form') == 'op':
            return {'equal': operator.eq, 'not_equal': operator.ne, 'less': operator.lt, 'less_equal': operator.le,
                    'greater': operator.gt, 'greater_equal': operator.ge}[op['uf']](a, b)
        return u(a, b)


def prepare(ops):
    """objects for several histories"""
    m = Machine()
    with np.errstate(all='ignore'):
        return m, [m.step(op) for op in ops]


def run(p, prepared=None):
    m, evs = Machine(), []
    if prepared:
        m.live, m.alias, evs = dict(prepared[0].live), dict(prepared[0].alias), list(prepared[1])
    with np.errstate(all='ignore'):
        return evs + [m.step(op) for op in p['ops']]
