"""Wigner_D_element, Wigner_D_matrices, SWSH, SWSH_grid and the flag error_on_bad_indices."""
import numpy as np
import quaternion
import spherical_functions as sf
from common import C, Cs, F, Fs, attempt, reuse, Frame


def quat(q):
    return np.quaternion(*q)


def quats(qs, shape):
    a = np.empty(len(qs), dtype=np.quaternion)
    for i, q in enumerate(qs):
        a[i] = np.quaternion(*q)
    return a.reshape(shape)


def laid(a, lay):
    """the same array in another memory layout"""
    if lay == 'F':
        return np.asfortranarray(a)
    if lay == 'T':
        return a.transpose().copy().transpose()
    if lay == 'strided':
        b = np.empty(a.shape[:-1] + (2*a.shape[-1],), dtype=a.dtype)
        b[...] = np.quaternion(.5, .5, -.5, .5)
        b[..., ::2] = a
        return b[..., ::2]
    if lay == 'ro':
        a.flags.writeable = False
    if lay == 'reversed':
        return a[..., ::-1].copy()[..., ::-1]
    if lay == 'swapped':
        return np.moveaxis(np.moveaxis(a, 0, -1).copy(), -1, 0)
    return a


def fuzz(x, e):
    """index values a rounding error away from the half-integers they stand for"""
    return np.asarray(x) * (1 + e * 2**-52) if e else x


def half(i):
    """a doubled index as the number the user would pass"""
    return i // 2 if i % 2 == 0 else i / 2


def forms(a, k):
    """the index array in another memory layout or of another type"""
    k = k // 2 % 9
    if k == 2:
        return np.asfortranarray(a)
    if k == 4:
        b = np.full((2*a.shape[0],) + a.shape[1:], 7, dtype=a.dtype)[::2]
        b[...] = a
        return b
    if k == 6 and a.dtype.kind == 'i':
        return a.astype(np.int32)
    if k == 8:
        a = a.copy()
        a.flags.writeable = False
    return a


def listed(a, k):
    a = a.tolist()
    return a if k // 2 % 3 else tuple(tuple(x) if isinstance(x, list) else x for x in a)


def result(ev, r, x):
    ev['x'] = x
    if x:
        ev.update(sh=[], r=[])
    else:
        ev.update(sh=list(np.shape(r)), r=Cs(r))
    return ev


NUMS = [lambda x: x, np.float64, np.int64, float, np.int32]
INTS = [int, np.int64, np.int32, int]


def number(x, k, types=NUMS):
    """a real number as another type that holds its value exactly"""
    y = types[k % len(types)](x)
    return y if y == x else x


def integer(x, k):
    return number(x, k, INTS) if float(x).is_integer() else x


def cnumber(z, k):
    if z.imag == 0 and k % 3 == 2:
        return number(z.real if not float(z.real).is_integer() or k % 2 else int(z.real), k // 3)
    if k % 3 == 1:
        return np.complex64(z) if complex(np.complex64(z)) == z else np.complex128(z)
    return z


def rotor(op):
    rf, rot = op['rf'], op['rot']
    nt = op.get('nt', 0)
    if rf == 'q':
        return (quat(rot),), [F(c) for c in rot]
    if rf == 'ab':
        R = quat(rot)
        return (cnumber(complex(R.a), nt), cnumber(complex(R.b), nt)), [C(R.a), C(R.b)]
    if rf == 'euler':
        return tuple(number(a, nt + i) for i, a in enumerate(rot)), [F(a) for a in rot]
    return (reuse(laid(quats(rot, op['qsh']), op.get('lay'))),), [[F(c) for c in q] for q in rot]


frame = Frame()


def run(p):
    evs = []
    if p['h'] != 1:     # the first history starts with the module as imported
        sf.error_on_bad_indices = True
    for op in p['ops']:
        ev = dict(op)
        o = op['op']
        if o == 'flag':
            sf.error_on_bad_indices = bool(op['v'])
        elif o == 'D':
            args, ev['rot'] = rotor(op)
            xf, ix = op['xf'], op['ix']
            if xf == 'lmm':
                idx = tuple(float(fuzz(half(i), op['eps'])) if op.get('eps') else number(half(i), op.get('nt', 0) + k) for k, i in enumerate(ix))
            elif xf == 'ell':
                idx = (float(fuzz(half(ix), op['eps'])) if op.get('eps') else number(half(ix), op.get('nt', 0)),)
            else:
                a = np.array(ix, dtype=float) / 2
                a = fuzz(a, op.get('eps'))
                if np.all(a == np.round(a)) and not op.get('fl'):
                    a = a.astype(int)
                idx = (listed(a, p['h']) if op.get('py') else reuse(forms(a, p['h'])),)
            frame.before(*args, *idx)
            r, x = attempt(lambda: sf.Wigner_D_element(*args, *idx))
            result(ev, r, x)
            frame.after(ev, r)
        elif o == 'Dm':
            frame.before()
            r, x = attempt(lambda: sf.Wigner_D_matrices(quat(op['q']), integer(half(op['lo']), op.get('nt', 0)), integer(half(op['hi']), op.get('nt', 0))))
            ev['q'] = [F(c) for c in op['q']]
            result(ev, r, x)
            frame.after(ev, r)
        elif o == 'Y':
            args, ev['rot'] = rotor(op)
            ix = np.array(op['ix'])
            ix = listed(ix, p['h']) if op.get('py') else reuse(forms(ix, p['h']))
            frame.before(args[0], ix)
            r, x = attempt(lambda: sf.SWSH(args[0], integer(op['s'], op.get('nt', 0)), ix))
            result(ev, r, x)
            frame.after(ev, r)
        elif o == 'Yg':
            ev['rot'] = [[F(c) for c in q] for q in op['rot']]
            R = reuse(laid(quats(op['rot'], op['qsh']), op.get('lay')))
            frame.before(R)
            r, x = attempt(lambda: sf.SWSH_grid(R, integer(op['s'], op.get('nt', 0)), integer(op['lmax'], op.get('nt', 0))))
            result(ev, r, x)
            frame.after(ev, r)
        else:
            raise SystemExit('DRIVER BUG: ' + o)
        evs.append(ev)
    sf.error_on_bad_indices = True
    return evs
