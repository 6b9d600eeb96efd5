"""Index functions (LM_range, ...), H wedge indices, coefficient accessors."""
import numpy as np
import spherical_functions as sf
from common import F, attempt, Frame


def ints(a, doubled=False):
    a = np.asarray(a)
    if a.size == 0:
        return []
    b = np.rint(a * (2 if doubled else 1))
    if not np.all(b == a * (2 if doubled else 1)):
        return [[-999999]]
    return b.astype(int).tolist()


def walk(k, lo, hi):
    if k == 'LM':
        return [(l, m) for l in range(lo, hi+1) for m in range(-l, l+1)]
    if k == 'LMpM':
        return [(l, p, m) for l in range(lo, hi+1) for p in range(-l, l+1) for m in range(-l, l+1)]
    return [(l, p, m) for l in range(lo, hi+1) for p in range(-l, l+1) for m in range(abs(p), l+1)]


def num(k, twice):
    return twice // 2 if twice % 2 == 0 else twice / 2


frame = Frame()


def run(p):
    evs = []
    for op in p['ops']:
        ev = dict(op)
        o = op['op']
        if o == 'range':
            k, lo, hi = op['k'], op['lo'], op['hi']
            f = {'LM': sf.LM_range, 'LMpM': sf.LMpM_range, 'Half': sf.LMpM_range_half_integer}[k]
            if k == 'Half':
                lo, hi = num(k, lo), num(k, hi)
            frame.before()
            r, x = attempt(lambda: f(lo, hi))
            ev['x'] = x
            ev['rows'] = [] if x else ints(r, k == 'Half')
            frame.after(ev, r)
        elif o == 'intonly':
            r, ev['x'] = attempt(lambda: sf.LMpM_range(op['lo']/2, op['hi']/2))
        elif o == 'index':
            k, lo, hi = op['k'], op['lo'], op['hi']
            if k == 'Wedge':
                from spherical_functions.recursions.wignerH import wedge_index
                ev['r'] = [int(wedge_index(*c)) for c in walk(k, lo, hi)]
            else:
                f = {'LM': sf.LM_index, 'LMpM': sf.LMpM_index}[k]
                ev['r'] = [int(f(*c, lo)) for c in walk(k, lo, hi)]
        elif o == 'size':
            k, lo, hi = op['k'], op['lo'], op['hi']
            if k == 'Wedge':
                from spherical_functions.recursions.wignerH import wedge_size
                ev['r'] = int(wedge_size(hi))
            else:
                ev['r'] = int({'LM': sf.LM_total_size, 'LMpM': sf.LMpM_total_size}[k](lo, hi))
        elif o == 'deduce':
            r, ev['x'] = attempt(lambda: sf.LM_deduce_ell_max(op['n'], op['lo']) if op['lo'] or op['n'] % 2
                                 else sf.LM_deduce_ell_max(op['n']))
            ev['r'] = -99 if ev['x'] else int(r)
        elif o == 'deducebig':
            r, ev['x'] = attempt(lambda: sf.LM_deduce_ell_max(op['s']**2 - op['lo']**2 + op['d'], op['lo']))
            ev['r'] = -99 if ev['x'] else int(r)
        elif o == 'big':
            a = op['a']
            if op['fn'].startswith(('wedge.', 'full.')):
                import importlib
                mod, name = op['fn'].split('.')
                mod = importlib.import_module('spherical_functions.' + ('recursions.wignerH' if mod == 'wedge' else 'WignerD.WignerDRecursion'))
                if not hasattr(mod, name):
                    continue        # a helper of the module; nothing to compare with if it is not there
                ev['r'] = F(int(getattr(mod, name)(*a)))
                ev['fn'] = name
                evs.append(ev)
                continue
            if op['fn'].endswith('size'):
                r = getattr(sf, op['fn'])(a[-1], a[0])
            else:
                r = getattr(sf, op['fn'])(*a)
            ev['r'] = F(int(r))
        elif o == 'wedgeify':
            from spherical_functions.recursions.wignerH import wedgeify_index
            ev['r'] = [int(i) for i in wedgeify_index(*op['c'])]
        elif o == 'coef':
            L, fn = op['L'], op['fn']
            def half(k):      # k/2, sometimes with a rounding error, or as an integer
                n[0] += 1
                x = k / 2
                if n[0] % 3 == 0:
                    return int(x) if k % 2 == 0 else x
                return x if n[0] % 3 == 1 else float(np.nextafter(x, (-9, 99)[n[0] % 2]))
            n = [op.get('ph', 0)]
            if fn == 'factorial':
                r = [sf.factorial(L)]
            elif fn == 'binomial':
                r = [sf.binomial_coefficient(L, i) for i in range(L+1)]
            elif fn == 'ladder':
                r = [sf.ladder_operator_coefficient(half(L), half(2*i-L)) for i in range(L+1)]
            else:
                r = [sf.Wigner_coefficient(half(L), half(2*i-L), half(2*j-L)) for i in range(L+1) for j in range(L+1)]
            ev['r'] = [F(x) for x in r]
        else:
            raise SystemExit('DRIVER BUG: ' + o)
        if o not in ('index', 'coef'):
            ev['r'] = ev.get('r', 0)
        evs.append(ev)
    return evs
