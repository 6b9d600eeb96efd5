"""HCalculator (recursions.wignerH and WignerD.WignerDRecursion) and complex_powers."""
import numpy as np
import spherical_functions as sf
from common import C, Cs, F, Fs, attempt, reuse, Frame


def cls(impl):
    if impl == 'wedge':
        from spherical_functions.recursions.wignerH import HCalculator
    else:
        from spherical_functions.WignerD.WignerDRecursion import HCalculator
    return HCalculator


def arr(v, sh):
    a = np.array(v, dtype=float).reshape(sh)
    return float(a) if a.shape == () else a


def laid(a, k):
    """the same array in another memory layout"""
    if not isinstance(a, np.ndarray):
        return a
    if k == 1:
        return np.asfortranarray(a)
    if k == 2:
        b = np.full(a.shape[:-1] + (3*a.shape[-1],), np.nan)[..., 1::3]
        b[...] = a
        return b
    return a


def buffer(op, z):
    """a preallocated output array with old content in it"""
    shape = z.shape + (op['M'] + 1,)
    if op['pre'] == 0:
        return None
    if op.get('lay') == 'F':
        b = np.empty(shape, dtype=complex, order='F')
    elif op.get('lay') == 'strided':
        b = np.empty(shape[:-1] + (2*shape[-1],), dtype=complex)[..., ::2]
    else:
        b = np.empty(shape, dtype=complex)
    b[...] = complex(np.nan, 7)
    return b


frame = Frame()


def prepare(ops):
    """calculators for several histories"""
    made = []
    for op in ops:
        c, x = attempt(lambda: cls(op['impl'])(op['nmax']))
        made.append((dict(op, x=x), c))
    return made


def run(p, prepared=()):
    evs, calcs, wss, bufs, kept = [], {}, {}, {}, []
    for ev, c in prepared:
        evs.append(ev)
        calcs[ev['id']] = c
    for op in p['ops']:
        ev = dict(op)
        o = op['op']
        if o == 'hnew':
            c, ev['x'] = attempt(lambda: cls(op['impl'])(op['nmax']))
            calcs[op['id']] = c
        elif o == 'hws':
            w, ev['x'] = attempt(lambda: calcs[op['id']].workspace(np.zeros(op['sh'])))
            wss[op['ws']] = w
            if op.get('dirty') and w is not None:
                w[...] = np.nan
        elif o == 'hcall':
            lay = (len(op['c']) + len(evs) + p['h']) % 4
            c = reuse(laid(arr(op['c'], op['sh']), lay), 'c')
            args = [c]
            kw = {}
            if op['s']:
                kw['sinβ'] = reuse(laid(arr(op['s'], op['ssh']), lay ^ (p['h'] % 3)), 's')
            if op['ws']:
                kw['workspace'] = wss[op['ws']]
            frame.before(c, kw.get('sinβ'))
            r, ev['x'] = attempt(lambda: calcs[op['id']](*args, **kw))
            frame.after(ev, None)
            ev['c'], ev['s'] = [F(x) for x in op['c']], [F(x) for x in op['s']]
            ev.update(rsh=[] if ev['x'] else list(np.shape(r)), r=[] if ev['x'] else Fs(r))
            if not op['ws'] and not ev['x']:
                kept.append((r, ev['r']))
        elif o == 'hkept':
            if not kept:
                continue
            r, was = kept[op['i'] % len(kept)]
            ev.update(r=Fs(r), was=was)
        elif o == 'qang':
            from spherical_functions.recursions import quaternion_angles
            R = reuse(np.array(op['q'], dtype=float))
            was = R.copy()
            r, ev['x'] = attempt(lambda: quaternion_angles(R))
            ev['q'] = [F(x) for x in op['q']]
            ev['own'] = int(np.array_equal(R, was))
            ev['r'] = [] if ev['x'] else [C(complex(z)) for z in r]
        elif o == 'pow':
            z = reuse(np.array([complex(*x) for x in op['z']]).reshape(op['zsh']))
            ev['z'] = Cs(z)
            b = buffer(op, z)
            if op['pre'] == 2:      # the buffer of the previous call
                b = bufs.get('b', b)
            zz = complex(z) if z.shape == () and op.get('py') else z
            before = z.copy()
            frame.before(z)
            if b is None:
                r, ev['x'] = attempt(lambda: sf.complex_powers(zz, op['M']))
            else:
                r, ev['x'] = attempt(lambda: sf.complex_powers(zz, op['M'], b))
                bufs['b'] = b
            ok = b is None or (ev['x'] == '' and np.array_equal(b.reshape(-1), np.reshape(r, -1)))
            ev['pre'] = 0 if b is None else 1
            ev['own'] = int(bool(ok) and np.array_equal(before, z))
            ev.update(rsh=[] if ev['x'] else list(np.shape(r)), r=[] if ev['x'] else Cs(r))
            frame.after(ev, r if b is None else None)
        else:
            raise SystemExit('DRIVER BUG: ' + o)
        evs.append(ev)
    return evs
