"""Wigner3j, clebsch_gordan, Wigner3jCalculator."""
import numpy as np
import spherical_functions as sf
from common import Fs, F, attempt


def run(p):
    evs, calcs, kept = [], {}, []
    for op in p['ops']:
        ev = dict(op)
        o = op['op']
        if o == 'w3j':
            ev['r'] = [F(sf.Wigner3j(*op['j'], *m)) for m in op['ms']]
        elif o == 'cg':
            j = op['j']
            ev['r'] = [F(sf.clebsch_gordan(j[0], m[0], j[1], m[1], j[2], m[2])) for m in op['ms']]
        elif o == 'new':
            c, ev['x'] = attempt(lambda: sf.Wigner3jCalculator(op['a'], op['b']))
            calcs[op['id']] = c
            ev['sz'] = -1 if ev['x'] else int(c.size)
        elif o == 'calc':
            w, ev['x'] = attempt(lambda: calcs[op['id']].calculate(op['j2'], op['j3'], op['m2'], op['m3']))
            ev['r'] = [] if ev['x'] else Fs(w)
            if op.get('keep') and not ev['x']:
                kept.append((np.copy(w), ev['r']))
        elif o == 'kept':
            if not kept:
                continue
            w, was = kept[op['i'] % len(kept)]
            ev.update(r=Fs(w), was=was)
        else:
            raise SystemExit('DRIVER BUG: ' + o)
        evs.append(ev)
    return evs
