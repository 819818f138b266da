"""C15 time search in file collections, time stamp conversion."""
import datetime
import os
import random
import tempfile
import types
import numpy
import netCDF4
import pytz
import thetis.interpolation as itp
import thetis.timezone as tz
from pyvc import core, shim, symarr, symdate
from pyvc.contract import contract
from pyvc.symarr import SArr, sorted_array
from .common import raises

ASSUMPTIONS = [
    'numpy.searchsorted is replaced by its contract (leftmost insertion point in a sorted array); numpy, netCDF4, cftime, glob and the arithmetic of aware datetime objects (differences are exact seconds) are trusted',
    'time stamps within one file are strictly increasing and the files of a collection do not overlap in time (the last stamp of a file is not after the first of the next)',
    'times within 1e-4 s of a stamp may be attributed to it (the code uses 1e-6 s)',
    'the previous-record search does not reject times after the last record (the interpolator pairs it with the next-record search, which does)',
]
I = 'thetis.interpolation:'
EPS = 1e-4


def env(v):
    if v.symbolic:
        v.patch(itp, 'numpy', symarr.NumpyShim())
        v.patch(itp, 'len', symarr.len_)
        v.patch(itp, 'float', shim._make_type('float'))
        v.patch(itp, 'isinstance', shim.isinstance_)
        for m in (tz, itp):
            v.patch(m, 'epoch', symdate.SymDate(core.Sym(core.z3.RealVal(0))))
            v.patch(m, 'datetime', symdate.Module())


def eps(v):
    return core._frac(EPS) if v.symbolic else EPS


def TOL(v):
    x = getattr(itp, 'TIMESEARCH_TOL', 1e-6)
    return core._frac(x) if v.symbolic else x


def date(v, s):
    return symdate.SymDate(s) if v.symbolic else tz.epoch_to_datetime(float(s))


# ------------------------------------------------------------------ one file
@contract('C15', I + 'NetCDFTimeParser.find_time_stamp')
def time_stamp_in_file(v):
    env(v)
    p = object.__new__(itp.NetCDFTimeParser)
    T = p.time_array = sorted_array(v, 'T')
    p.filename = 'f'
    n = T.n if v.symbolic else len(T)
    t = v.real('t', lo=None if v.symbolic else -60, hi=None if v.symbolic else 800)
    if not v.symbolic and v.values is None and v.flag('on_stamp'):
        t = float(T[v.rng.randrange(n)])
    arg = date(v, t) if v.flag('as_date') else t
    j = v.int('j', lo=0)
    v.assume(j < n)
    Tj = T[j]
    ex, i = raises(p.find_time_stamp, arg, previous=True)
    if ex is not None:
        v.check('previous: only an IndexError', isinstance(ex, IndexError), repr(ex))
        v.check('previous: rejected only if no stamp at or before t', v.lt(t, Tj))
    else:
        v.check('previous: index exists', v.all([i >= 0, i < n]))
        v.check('previous: stamp not after t', v.le(T[i], t + eps(v)))
        v.check('previous: within the tolerance', v.lt(T[i], t + TOL(v)))
        v.check('previous: it is the last such stamp', v.implies(v.le(Tj, t) if v.symbolic else Tj <= t, j <= i))
    ex2, k = raises(p.find_time_stamp, arg)
    if ex2 is not None:
        v.check('next: only an IndexError', isinstance(ex2, IndexError))
        v.check('next: rejected only if every stamp is at or before t', v.le(Tj, t + eps(v)))
    else:
        v.check('next: index exists', v.all([k >= 0, k < n]))
        v.check('next: stamp after t', v.lt(t, T[k]))
        v.check('next: at least the tolerance away', v.le(t + TOL(v), T[k]))
        v.check('next: it is the first such stamp', v.implies(v.lt(t + eps(v), Tj), k <= j))
    if ex is None and ex2 is None:
        v.check('previous and next are neighbours', v.eq(k, i + 1))
    v.check('a time inside the file is found by both searches',
            v.implies(v.all([v.le(T[0], t), v.lt(t + eps(v), T[n - 1])]), ex is None and ex2 is None))


# ------------------------------------------------------------------ collection of files
class Coll:
    """files 0..nf-1, file i has stamps i_0 < ... < i_(n(i)-1); files are ordered and do not overlap"""
    def __init__(self, v, sim0):
        self.v, self.sim0 = v, sim0
        if v.symbolic:
            self.nf = v.int('nf', lo=1)
            self.cnt = v.func('cnt')
            self.T = v.func('T', 2)
            self.seen = []
        else:
            self.nf = v.int('nf', lo=1, hi=4)
            self.seen = None
            if v.values is not None and 'fn_T' in v.values:
                f, c = v.func('T', 2), v.func('cnt')
                self.lists = [[float(f(i, k)) for k in range(min(int(c(i)), 500))] for i in range(self.nf)]
                flat = [x for l in self.lists for x in l]
                if any(not l for l in self.lists) or any(a > b for a, b in zip(flat, flat[1:])) or \
                        any(a >= b for l in self.lists for a, b in zip(l, l[1:])):
                    from pyvc.contract import Discard
                    raise Discard()
            else:
                x = v.real('T0', lo=-50, hi=50)
                self.lists = []
                for i in range(self.nf):
                    l = []
                    for k in range(v.rng.randint(1, 4)):
                        l.append(x)
                        x += v.rng.choice([1.0, 10.0, 33.5])
                    self.lists.append(l)
                    x = l[-1] + v.rng.choice([0.0, 10.0, 200.0]) if len(l) > 1 else x

    def n(self, i):
        if not self.v.symbolic:
            return len(self.lists[i])
        z = core.Sym(core.z3.ToInt(core.zreal(self.cnt(i))))
        self.v.assume(z >= 1)
        return z

    def stamp(self, i, k):
        """epoch time of record k of file i"""
        if not self.v.symbolic:
            return self.lists[i][k]
        x = self.T(i, k)
        self.touch(i, k, x)
        for e in (0, self.n(i) - 1):
            self.touch(i, e, self.T(i, e))
        return x

    def touch(self, i, k, x):
        v, lt, le = self.v, symarr._lt, symarr._le
        inb = lambda i, k: v.all([le(0, k), lt(k, self.n(i))])
        for (i2, k2, y) in self.seen:
            g = v.all([inb(i, k), inb(i2, k2)])
            for (a, ka, xa, b, kb, xb) in ((i, k, x, i2, k2, y), (i2, k2, y, i, k, x)):
                v.assume(v.implies(v.all([g, v.eq(a, b), lt(ka, kb)]), lt(xa, xb)))
                v.assume(v.implies(v.all([g, lt(a, b)]), le(xa, xb)))
            v.assume(v.implies(v.all([v.eq(i, i2), v.eq(k, k2)]), v.eq(x, y)))
        self.seen.append((i, k, x))

    def nc(self, i):
        c = self

        class File:
            time_array = SArr(c.v, c.n(i), lambda k: c.stamp(i, k)) if c.v.symbolic else numpy.array(c.lists[i])

            @staticmethod
            def find_time_stamp(t, previous=False):
                """contract of NetCDFTimeParser.find_time_stamp (contract time_stamp_in_file)"""
                v = c.v
                n = c.n(i)
                k = core.eng().fresh_int('rec')
                tol = TOL(v)
                if previous:
                    if c.stamp(i, 0) >= t + tol:
                        raise IndexError('before')
                    v.assume(v.all([0 <= k, k < n]))
                    v.assume(v.all([c.stamp(i, k) < t + tol, v.implies(k < n - 1, c.stamp(i, k + 1) >= t + tol)]))
                else:
                    if c.stamp(i, n - 1) < t + tol:
                        raise IndexError('after')
                    v.assume(v.all([0 <= k, k < n]))
                    v.assume(v.all([c.stamp(i, k) >= t + tol, v.implies(k > 0, c.stamp(i, k - 1) < t + tol)]))
                    v.assume(c.stamp(i, k) > t)
                return k
        if not c.v.symbolic:
            p = object.__new__(itp.NetCDFTimeParser)
            p.time_array, p.filename = numpy.array(c.lists[i]), 'f%d' % i
            return p
        return File()


def searcher(v, c, sim0):
    s = object.__new__(itp.NetCDFTimeSearch)
    s.sim_start_time = sim0
    s.init_date = date(v, sim0)
    s.verbose = False
    if v.symbolic:
        s.files = SArr(v, c.nf, lambda i: i)
        s.ncfiles = SArr(v, c.nf, lambda i: c.nc(i))
        s.start_times = SArr(v, c.nf, lambda i: c.stamp(i, 0) - sim0, mono=True, strict=False)
        s.start_datetime = SArr(v, c.nf, lambda i: date(v, c.stamp(i, 0)))
    else:
        s.files = numpy.arange(c.nf)
        s.ncfiles = numpy.array([c.nc(i) for i in range(c.nf)])
        s.start_times = numpy.array([c.stamp(i, 0) - sim0 for i in range(c.nf)])
    return s


for _prev in (True, False):
    @contract('C15', I + 'NetCDFTimeSearch.find', name='search_%s' % ('previous' if _prev else 'next'), budget=300)
    def search(v, prev=_prev):
        env(v)
        sim0 = v.real('sim0', lo=None if v.symbolic else 0, hi=None if v.symbolic else 100)
        c = Coll(v, sim0)
        s = searcher(v, c, sim0)
        t = v.real('t', lo=None if v.symbolic else -150, hi=None if v.symbolic else 400)
        if not v.symbolic and v.values is None and v.flag('on_stamp'):
            l = v.rng.choice(c.lists)
            t = v.rng.choice(l) - sim0
        i, k = v.int('i', lo=0), v.int('k', lo=0)
        v.assume(i < c.nf)
        v.assume(k < c.n(i))
        Tik = c.stamp(i, k)
        ex, r = raises(s.find, t, previous=prev)
        if ex is not None:
            v.check('rejected only when no record qualifies', v.lt(sim0 + t, Tik) if prev else v.le(Tik, sim0 + t + eps(v)))
            return
        f, it, time = r
        v.check('file exists', v.all([f >= 0, f < c.nf]))
        v.check('record exists in that file', v.all([it >= 0, it < c.n(f)]))
        v.check('returned time is the simulation time of that record', v.eq(time, c.stamp(f, it) - sim0))
        if prev:
            v.check('record not after the requested time', v.le(time, t + eps(v)))
            v.check('no later record qualifies', v.implies(v.le(Tik, sim0 + t), v.le(Tik, c.stamp(f, it))))
        else:
            v.check('record after the requested time', v.lt(t, time))
            v.check('no earlier record qualifies', v.implies(v.lt(sim0 + t + eps(v), Tik), v.le(c.stamp(f, it), Tik)))


@contract('C15', I + 'DailyFileTimeSearch.find')
def daily_search(v):
    env(v)
    s = object.__new__(itp.DailyFileTimeSearch)
    S = s.start_times = sorted_array(v, 'S')
    n = S.n if v.symbolic else len(S)
    s.files = SArr(v, n, lambda i: i) if v.symbolic else numpy.arange(n)
    sim0 = v.real('sim0', lo=0, hi=1000)
    s.sim_start_time, s.init_date = sim0, date(v, sim0)
    t = v.real('t', lo=None if v.symbolic else -60, hi=None if v.symbolic else 800)
    if not v.symbolic and v.values is None and v.flag('on_stamp'):
        t = float(S[v.rng.randrange(n)])
    j = v.int('j', lo=0)
    v.assume(j < n)
    Sj = S[j]
    prev = v.flag('previous')
    ex, r = raises(s.find, t, previous=prev)
    if ex is not None:
        v.check('rejected only when no file qualifies', v.lt(t, Sj) if prev else v.le(Sj, t + eps(v)))
        return
    f, it, time = r
    v.check('file exists', v.all([f >= 0, f < n]))
    v.check('only record of the file', v.eq(it, 0))
    v.check('time of that file', v.eq(time, S[f]))
    if prev:
        v.check('file not after t', v.le(time, t + eps(v)))
        v.check('last such file', v.implies(v.le(Sj, t) if v.symbolic else Sj <= t, j <= f))
    else:
        v.check('file after t', v.lt(t, time))
        v.check('first such file', v.implies(v.lt(t + eps(v), Sj), f <= j))


# ------------------------------------------------------------------ time stamps
@contract('C15', ['thetis.timezone:datetime_to_epoch', 'thetis.timezone:epoch_to_datetime',
                  I + 'NetCDFTimeSearch.simulation_time_to_datetime', I + 'DailyFileTimeSearch.simulation_time_to_datetime'])
def stamps(v):
    env(v)
    s = v.real('s', lo=0, hi=2e9)
    t = v.real('t', lo=0, hi=1e8)
    if not v.symbolic:
        s, t = round(s), round(t)
    d = date(v, s)
    v.check('epoch of a date', v.eq(tz.datetime_to_epoch(d), s))
    e = tz.epoch_to_datetime(s)
    v.check('date of an epoch', v.eq((e - d).total_seconds(), 0))
    v.check('date -> epoch -> date', v.eq((tz.epoch_to_datetime(tz.datetime_to_epoch(d)) - d).total_seconds(), 0))
    for cls in (itp.NetCDFTimeSearch, itp.DailyFileTimeSearch):
        o = object.__new__(cls)
        o.init_date = d
        v.check('%s: date of a simulation time' % cls.__name__, v.eq((o.simulation_time_to_datetime(t) - d).total_seconds(), t))


def _zones():
    for h in [x / 2 for x in range(-24, 25)]:
        yield h


@contract('C15', ['thetis.timezone:FixedTimeZone.__init__', 'thetis.timezone:datetime_to_epoch'], kind='concrete',
          bounded='every half-hour offset from -12 to 12 h, 20 dates each')
def fixed_zones(v):
    rng = random.Random(5)
    for h in _zones():
        z = tz.FixedTimeZone(h if h != int(h) else int(h), 'Z%s' % h)
        for _ in range(20):
            naive = datetime.datetime(1950 + rng.randrange(120), 1 + rng.randrange(12), 1 + rng.randrange(28), rng.randrange(24), rng.randrange(60), rng.randrange(60))
            for d in (z.localize(naive), naive.replace(tzinfo=z)):
                v.check('utc offset is the given number of hours', d.utcoffset() == datetime.timedelta(hours=h))
                want = (naive - datetime.datetime(1970, 1, 1)).total_seconds() - h * 3600
                v.check('epoch independent of the zone', v.eq(tz.datetime_to_epoch(d), want))
                v.check('same instant after the round trip', tz.epoch_to_datetime(tz.datetime_to_epoch(d)) == d)
        v.check('zone name', z.tzname(None) == 'Z%s' % h)


# ------------------------------------------------------------------ constructors
def _consistent(v, s, starts, init, made=None):
    n = len(starts)
    v.check('every file kept once', sorted(s.files) == sorted(starts))
    for k in range(n):
        f = str(s.files[k])
        if made is not None:
            v.check('file and parser stay together', s.ncfiles[k] is made[f])
        v.check('start date belongs to the file', v.eq((s.start_datetime[k] - date(v, starts[f])).total_seconds(), 0))
        v.check('start time relative to the initial date', v.eq(s.start_times[k], starts[f] - init))
        if k:
            v.check('files in time order', v.le(s.start_times[k - 1], s.start_times[k]))
    v.check('initial date', v.eq(s.sim_start_time, init))


for _n in (1, 2, 3):
    @contract('C15', I + 'NetCDFTimeSearch.__init__', name='collection_%d' % _n, bounded='%d files, every order and value of the time stamps' % _n)
    def collection(v, n=_n):
        env(v)
        names = ['f%d' % i for i in range(n)]
        off = v.real('off', lo=0, hi=1e5)
        starts = {f: v.real('s' + f, lo=0, hi=1e6) for f in names}
        init = v.real('init', lo=0, hi=1e6)
        v.patch(itp, 'glob', types.SimpleNamespace(glob=lambda p: list(names)))
        made = {}

        class Parser:
            def __init__(self, fn, *a, **k):
                self.fn, self.a, self.k = fn, a, k
                made[fn] = self

            def get_start_time(self):
                return date(v, starts[self.fn])

            def get_end_time(self):
                return date(v, starts[self.fn] + 1)
        s = itp.NetCDFTimeSearch('f*', date(v, init), Parser, 3, time_variable_name='tt')
        _consistent(v, s, starts, init, made)
        v.check('parser arguments passed on', all(p.a == (3,) and p.k.get('time_variable_name') == 'tt' for p in made.values()))


for _n in (1, 3):
    @contract('C15', I + 'NetCDFTimeParser.__init__', name='parser_%d' % _n, bounded='%d records, all values, naive and aware dates' % _n)
    def parser(v, n=_n):
        env(v)
        vals = [v.real('x%d' % i, lo=0, hi=1e6) for i in range(n)]
        base = v.real('base', lo=0, hi=1e9)
        naive = v.flag('naive') if v.symbolic else False

        class Var:
            units, calendar = 'U', 'C'
            def ncattrs(self): return ['units', 'calendar']
            def __getitem__(self, k): return list(vals)

        class DS:
            def __init__(self, fn): v.check('the named file', fn == 'f')
            def __enter__(self): return self
            def __exit__(self, *a): pass
            def __getitem__(self, k):
                v.check('the named time variable', k == 'tv')
                return Var()

        def num2pydate(x, units, calendar):
            v.check('units and calendar of the file', (units, calendar) == ('U', 'C'))
            d = date(v, base + x)
            if naive:
                d.tzinfo = None
            return d

        class UTC:
            @staticmethod
            def localize(d): return symdate.SymDate(d.s)
        v.patch(itp, 'netCDF4', types.SimpleNamespace(Dataset=DS))
        v.patch(itp, 'cftime', types.SimpleNamespace(num2pydate=num2pydate))
        if v.symbolic:
            v.patch(itp, 'pytz', types.SimpleNamespace(utc=UTC()))
        p = itp.NetCDFTimeParser('f', time_variable_name='tv')
        v.check('one stamp per record', len(p.time_array) == n and p.nb_steps == n)
        for k in range(n):
            v.check('stamps are the epoch times of the records, in order', v.eq(p.time_array[k], base + vals[k]))
        v.check('start', v.eq((p.get_start_time() - date(v, base + vals[0])).total_seconds(), 0) if v.symbolic
                else abs((p.get_start_time() - date(v, base + vals[0])).total_seconds()) < 1e-3)
        v.check('end', v.eq((p.get_end_time() - date(v, base + vals[-1])).total_seconds(), 0) if v.symbolic
                else abs((p.get_end_time() - date(v, base + vals[-1])).total_seconds()) < 1e-3)


PATTERNS = ['a/{year:04d}/s3d_{year:04d}{month:02d}{day:02d}00.nc', 'x_{day:02d}-{month:02d}-{year:04d}.nc', 'y{year:04d}{month:02d}{day:02d}.nc']


@contract('C15', [I + 'DailyFileTimeSearch.__init__', I + 'DailyFileTimeSearch._find_files', I + 'DailyFileTimeSearch._parse_date'],
          kind='concrete', bounded='3 patterns, 3 zones, 2 centre hours, 5 dates, files created in a scratch directory in random order')
def daily_collection(v):
    rng = random.Random(11)
    for pat in PATTERNS:
        for zone in (pytz.utc, tz.FixedTimeZone(-6, 'X'), tz.FixedTimeZone(3, 'Y')):
            with tempfile.TemporaryDirectory() as d:
                p = os.path.join(d, pat)
                dates = [datetime.date(2003, 12, 30) + datetime.timedelta(days=x) for x in (0, 1, 2, 3, 40)]
                rng.shuffle(dates)
                files = {}
                for x in dates:
                    f = p.format(year=x.year, month=x.month, day=x.day)
                    os.makedirs(os.path.dirname(f), exist_ok=True)
                    open(f, 'w').close()
                    files[f] = x
                hour = rng.choice((12, 0))
                init = datetime.datetime(2003, 12, 31, 5, tzinfo=tz.FixedTimeZone(2, 'W'))
                s = itp.DailyFileTimeSearch(p, init, center_hour=hour, center_timezone=zone)
                starts = {f: (datetime.datetime(x.year, x.month, x.day, hour) - datetime.datetime(1970, 1, 1)).total_seconds()
                          - zone.utcoffset(datetime.datetime(2004, 1, 1)).total_seconds() for f, x in files.items()}
                _consistent(v, s, starts, tz.datetime_to_epoch(init))


# ------------------------------------------------------------------ end to end on real files
def write(fn, base, units, times, values):
    with netCDF4.Dataset(fn, 'w') as d:
        d.createDimension('time', None)
        tv = d.createVariable('time', 'f8', ('time',))
        tv.units, tv.calendar, tv.standard_name = units, 'gregorian', 'time'
        dv = d.createVariable('data', 'f8', ('time',))
        ev = d.createVariable('more', 'f8', ('time',))
        tv[:], dv[:], ev[:] = times, values, 10 - 2 * numpy.asarray(values)


@contract('C15', [I + 'NetCDFTimeSearch.find', I + 'NetCDFTimeSearch.__init__', I + 'NetCDFTimeParser.__init__', I + 'NetCDFTimeParser.find_time_stamp'],
          kind='concrete', bounded='12 random collections of 1-5 real netCDF files (gaps, shared end stamps, single records, UTC offsets), every record and 40 random times each')
def real_files(v):
    rng = random.Random(2)
    for case in range(12):
        with tempfile.TemporaryDirectory() as d:
            t, off = 1000.0 * rng.randrange(5), rng.choice((0, -6, 3))
            recs = []
            nf = rng.randint(1, 5)
            order = list(range(nf))
            rng.shuffle(order)
            base = datetime.datetime(1999, 12, 31, 20)
            units = 'seconds since %s%s' % (base.strftime('%Y-%m-%d %H:%M:%S'), ' %+03d' % off if off else '')
            last = None
            for i in range(nf):
                ts = []
                if last is not None and rng.random() < .4:
                    ts.append(last)
                for k in range(rng.randint(1, 4)):
                    t += rng.choice((60., 600., 86400.))
                    ts.append(t)
                last = ts[-1]
                f = os.path.join(d, 'f_%d.nc' % order[i])
                write(f, base, units, ts, [0.5 * x for x in ts])
                recs += [(x, f, k) for k, x in enumerate(ts)]
            init = datetime.datetime(2000, 1, 1, tzinfo=tz.FixedTimeZone(rng.choice((0, 5, -3)), 'Q'))
            sim0 = (init.astimezone(pytz.utc) - (base - datetime.timedelta(hours=off)).replace(tzinfo=pytz.utc)).total_seconds()
            s = itp.NetCDFTimeSearch(os.path.join(d, 'f_*.nc'), init, itp.NetCDFTimeParser)
            stamps = sorted({r[0] for r in recs})
            qs = stamps + [rng.uniform(stamps[0] - 500, stamps[-1] + 500) for _ in range(40)]
            for q in qs:
                for prev in (True, False):
                    want = [x for x in stamps if x <= q] if prev else [x for x in stamps if x > q]
                    ex, r = raises(s.find, q - sim0, previous=prev)
                    v.check('found exactly when a record qualifies', (ex is None) == bool(want), '%s %s' % (q, stamps))
                    if want:
                        w = max(want) if prev else min(want)
                        v.check('the enclosing record', abs(r[2] + sim0 - w) < 1e-3, '%s %s' % (r, w))
                        v.check('file and index of that record', any(x == w and f == r[0] and k == r[1] for x, f, k in recs))
