"""Symbolic stand-ins for datetime/timedelta: exact seconds on a line (aware datetimes)."""
import datetime as _dt
from . import core
from .core import Sym


class SymDelta:
    _stands_for = _dt.timedelta
    def __init__(self, s): self.s = s
    def total_seconds(self): return self.s
    def __add__(self, o): return o + self if isinstance(o, SymDate) else SymDelta(self.s + _s(o))
    __radd__ = __add__
    def __neg__(self): return SymDelta(-self.s)
    def __sub__(self, o): return SymDelta(self.s - _s(o))
    def __mul__(self, k): return SymDelta(self.s * k)
    __rmul__ = __mul__
    def __lt__(self, o): return self.s < _s(o)
    def __le__(self, o): return self.s <= _s(o)
    def __gt__(self, o): return self.s > _s(o)
    def __ge__(self, o): return self.s >= _s(o)
    def __truediv__(self, o): return self.s / _s(o) if isinstance(o, (SymDelta, _dt.timedelta)) else SymDelta(self.s / o)
    @property
    def days(self): return core.mk(core.z3.ToInt(core.zreal(self.s / 86400)))
    @property
    def seconds(self): return core.Sym(core.z3.ToInt(core.zreal(self.s))) - self.days * 86400
    @property
    def microseconds(self): return (self.s - core.Sym(core.z3.ToInt(core.zreal(self.s)))) * 1000000


def _s(o):
    if isinstance(o, SymDelta):
        return o.s
    if isinstance(o, _dt.timedelta):
        return core._frac(o.total_seconds())
    if isinstance(o, SymDate):
        return o.s
    raise TypeError('not a time difference')


class SymDate:
    _stands_for = _dt.datetime
    tzinfo = _dt.timezone.utc

    def __init__(self, s): self.s = s
    def __add__(self, d): return SymDate(self.s + _s(d)) if not isinstance(d, (int, float, Sym)) else NotImplemented
    __radd__ = __add__
    def __sub__(self, o):
        if isinstance(o, SymDate):
            return SymDelta(self.s - o.s)
        return SymDate(self.s - _s(o))
    def __lt__(self, o): return self.s < o.s
    def __le__(self, o): return self.s <= o.s
    def __gt__(self, o): return self.s > o.s
    def __ge__(self, o): return self.s >= o.s
    def __eq__(self, o): return self.s == o.s if isinstance(o, SymDate) else False
    def __hash__(self): return 3
    def __format__(self, f): return '<date>'
    def isoformat(self): return '<date>'
    def timestamp(self): return self.s
    def astimezone(self, tz=None): return self


class _DT:
    """stands for the class datetime.datetime"""
    def __instancecheck__(self, x): return isinstance(x, (SymDate, _dt.datetime))
    def __getattr__(self, k): return getattr(_dt.datetime, k)
    def __call__(self, *a, **k): return _dt.datetime(*a, **k)


class Module:
    """stands for the module datetime"""
    datetime = _dt.datetime

    def __getattr__(self, k):
        return getattr(_dt, k)

    @staticmethod
    def timedelta(days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        a = (days, seconds, microseconds, milliseconds, minutes, hours, weeks)
        if any(core.is_sym(x) for x in a):
            return SymDelta(days * 86400 + seconds + microseconds * core._frac(1e-6) + milliseconds * core._frac(1e-3)
                            + minutes * 60 + hours * 3600 + weeks * 604800)
        return _dt.timedelta(*a)
