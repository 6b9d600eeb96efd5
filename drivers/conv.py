"""The free functions of mode_conversions."""
import numpy as np
import spherical_functions as sf
from common import Cs, attempt


def make(op):
    n = int(np.prod(op['sh'], dtype=int))
    r = np.random.RandomState(op['seed'])
    z = r.standard_normal(n) + 1j*r.standard_normal(n)
    if op.get('real'):
        z = z.real
    if op.get('zeros'):
        z[r.random_sample(n) < 0.4] = 0.0
    if op.get('exp'):
        z = z * 10.0**r.randint(-op['exp'], op['exp']+1, size=n)
    if op['k'] == 'modes':
        ell = np.array([l for l in range(op['lo'], op['hi']+1) for m in range(-l, l+1)], dtype=int)
        assert len(ell) == n
        if not op.get('low'):
            z[ell < abs(op['s'])] = 0.0
    z = z.reshape(op['sh'])
    lay = op.get('lay')
    if op.get('int'):
        z = np.rint(4 * z.real).astype(int)
    if lay == 'ro':
        z.flags.writeable = False
        return z
    if lay == 'list':
        return z.tolist()
    if lay == 'scalar':
        return z[()]
    if lay == 'F':
        return np.array(z, order='F')
    if lay == 'strided':
        b = np.empty(z.shape[:-1] + (2*z.shape[-1],), dtype=z.dtype)[..., ::2]
        b[...] = z
        return b
    if lay == 'rev':
        return np.array(z[..., ::-1])[..., ::-1]
    return z


def run(p):
    evs, arrs = [], {}
    for op in p['ops']:
        o = op['op']
        if o == 'new':
            a = make(op)
            arrs[op['id']] = a
            evs.append(dict(op='new', id=op['id'], k=op['k'], s=op['s'], lo=op['lo'], sh=list(np.shape(a)), v=Cs(a)))
            continue
        if op['a'] not in arrs:
            continue
        a = arrs[op['a']]
        before = {i: np.array(x) for i, x in arrs.items()}    # (scalars and lists too)
        f = getattr(sf, o)
        if 's' in op:
            form = op.get('form', 'pos')
            if form == 'default':        # ell_min = 0 is the default
                g = lambda: f(a, op['s'])
            elif form == 'kw':
                g = lambda: f(a, spin_weight=op['s'], ell_min=op['lo'])
            else:
                g = lambda: f(a, op['s'], op['lo'])
        else:
            g = lambda: f(a)
        r, x = attempt(g)
        un = int(all(np.array_equal(before[i], arrs[i], equal_nan=True) for i in arrs))
        ev = dict(op=o, a=op['a'], id=op['id'], x=x, un=un, mem=0, sh=[], v=[])
        if not x:
            arrs[op['id']] = r
            ev.update(sh=list(np.shape(r)), v=Cs(r), mem=int(isinstance(r, np.ndarray) and isinstance(a, np.ndarray) and np.may_share_memory(r, a)))
        evs.append(ev)
    return evs
