"""Recording helpers shared by the drivers."""
import math
import threading
import numpy as np


def F(x):
    """binary64 -> exact triple [e, hi, lo] with x = (hi*2^27 + lo) * 2^e"""
    x = float(x)
    if x != x:
        return [9999, 0, 0]
    if math.isinf(x):
        return [9999, 1 if x > 0 else -1, 0]
    m, e = math.frexp(x)
    m = int(m * 2**53)
    return [e - 53, m >> 27, m & (2**27 - 1)]


def C(z):
    z = complex(z)
    return [F(z.real), F(z.imag)]


def Cs(a):
    """all elements of an array, row-major"""
    return [C(z) for z in np.asarray(a, dtype=complex).ravel().tolist()]


def Fs(a):
    return [F(x) for x in np.asarray(a, dtype=float).ravel().tolist()]


def attempt(f):
    """(result, '') or (None, name of the exception)"""
    try:
        return f(), ''
    except Exception as ex:
        return None, exname(ex)


def exname(ex):
    """The class of the error as callers can catch it."""
    for c in (ValueError, TypeError, IndexError, KeyError, NotImplementedError, ZeroDivisionError, AttributeError):
        if isinstance(ex, c):
            return c.__name__
    return type(ex).__name__


class _Buffers(threading.local):
    def __init__(self):
        self.d = {}


_buffers = _Buffers()


def reuse(a, tag=''):
    """The same values in the array object that was handed over for such an array before.

    Callers often fill one array again and again; what a call answers must not depend on what the
    same array held at an earlier call.
    """
    if not isinstance(a, np.ndarray) or a.ndim == 0 or not a.flags.writeable:
        return a
    b = _buffers.d.setdefault((tag, a.dtype, a.shape, a.strides), a)
    if b is not a:
        b[...] = a
    return b


class Frame(threading.local):
    """What a call must leave alone: its arguments and the results of earlier calls (of the same thread).

    Every second array that is returned is kept and looked at again after later calls; the others are
    overwritten, as their owner may do, which must not show in later answers.
    """
    def __init__(self):
        self.kept, self.n = [], 0

    def before(self, *args):
        self.args = [(a, a.copy()) for a in args if isinstance(a, np.ndarray)]

    def after(self, ev, r):
        for a, c in self.args:
            if a.tobytes() != c.tobytes():
                ev['fr'] = 'the call changed its argument'
        if any(k.tobytes() != c for k, c in self.kept):
            ev['fr'] = 'the result of an earlier call changed'
            self.kept = []
        if isinstance(r, np.ndarray) and r.ndim and r.flags.writeable:
            self.n += 1
            if self.n % 2:
                r[...] = 77
            else:
                self.kept = self.kept[-7:] + [(r, r.tobytes())]
