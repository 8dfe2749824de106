"""C20: time series."""
from symx import core
from symx.run import case
import datetime as _dt
import numpy as np
import resqpy.time_series as rqts
import resqpy.time_series._any_time_series as rqts_any
import resqpy.time_series._time_duration as rqts_td
import resqpy.time_series._time_series as rqts_ts
import resqpy.time_series._functions as rqts_fn
import resqpy.property as rqp
from checks.c08 import _model, _reopen, _grid

META = dict(
    title = 'Time series are ordered, searched, extended, merged and stored correctly',
    statement = 'For every series of timestamps and every timestamp asked for, the index returned is that of the last not later, '
    'the first not earlier, the closest or the equal one, durations and days between steps are those of the two timestamps, and '
    'adding, inserting, extending, selecting and merging give the series in order with exactly the timestamps expected. '
    'Human and geologic series load from file as written and are equivalent exactly when their timestamps are, within any '
    'tolerance given, and a property refers to the step it was given.',
    text = 'any timestamps to the second over more than a century, any durations, any geologic years, any tolerance',
    why = 'searches and insertions have cases for before, after, equal and between, which tests visit one each; dates are '
    'compared as text in one place and as times in another',
    files = ['resqpy/time_series/_any_time_series.py', 'resqpy/time_series/_time_series.py',
             'resqpy/time_series/_time_duration.py', 'resqpy/time_series/_functions.py',
             'resqpy/time_series/_geologic_time_series.py'],
    mechanism = [('searching and extending', 'resqpy/time_series/_time_series.py'),
                 ('storing and loading', 'resqpy/time_series/_any_time_series.py'),
                 ('merging', 'resqpy/time_series/_functions.py')],
    observe = ['timestamps, indices and durations returned, in memory and after loading'],
    note = 'series of up to 4 timestamps in one format (full, or date only) of whole seconds; the datetime module of Python is '
    'stood for by numbers of seconds and ISO text by its order in time')

DAY = 86400
ZERO = _dt.datetime(2000, 1, 1)
FAR = 60000 * DAY


class _Delta:

    def __init__(self, secs):
        self.secs = secs

    @property
    def days(self):
        return self.secs // DAY

    @property
    def seconds(self):
        return self.secs - self.days * DAY

    def total_seconds(self):
        return self.secs

    def __abs__(self):
        return _Delta(self.secs if bool(self.secs >= 0) else -self.secs)

    def __neg__(self):
        return _Delta(-self.secs)

    def __lt__(self, o):
        return self.secs < o.secs

    def __le__(self, o):
        return self.secs <= o.secs

    def __gt__(self, o):
        return self.secs > o.secs

    def __ge__(self, o):
        return self.secs >= o.secs

    def __eq__(self, o):
        return self.secs == o.secs

    def __add__(self, o):
        return _Date(o.secs + self.secs) if isinstance(o, _Date) else _Delta(o.secs + self.secs)

    __hash__ = None


class _Date:

    def __init__(self, secs):
        self.secs = secs

    def __sub__(self, o):
        return _Date(self.secs - o.secs) if isinstance(o, _Delta) else _Delta(self.secs - o.secs)

    def __add__(self, o):
        return _Date(self.secs + o.secs)

    def __lt__(self, o):
        return self.secs < o.secs

    def __gt__(self, o):
        return self.secs > o.secs

    def __le__(self, o):
        return self.secs <= o.secs

    def __ge__(self, o):
        return self.secs >= o.secs

    def __eq__(self, o):
        return isinstance(o, _Date) and bool(self.secs == o.secs)

    def __hash__(self):
        return 0

    def isoformat(self):
        return _Stamp(self.secs, 19)

    def __str__(self):
        return _Stamp(self.secs, 19)


BOOK = {}     # text standing for a timestamp -> seconds, length


class _Stamp(str):
    """ISO text of a time: compared by time; texts of the same length only"""

    def __new__(cls, secs, n = 20, part = None):
        key = f'stamp-{len(BOOK)}-'
        self = super().__new__(cls, key)
        BOOK[key] = self
        self.secs, self.n, self.part = secs, n, part
        return self

    def __len__(self):
        return self.n

    def __str__(self):
        return self

    def endswith(self, x):
        assert x == 'Z'
        return self.n == 20

    def rstrip(self, x):
        assert x == 'Z'
        return _Stamp(self.secs, 19) if self.n == 20 else self

    def __getitem__(self, i):
        i = (i.start, i.stop) if isinstance(i, slice) else i
        if i == (None, -1) and self.n == 20:
            return _Stamp(self.secs, 19)
        if i == (None, 19):
            return _Stamp(self.secs, min(self.n, 19))
        if i == (None, 10):
            return _Stamp(self.secs, 10)
        if i in ((11, 19), (11, None)):
            return _Stamp(self.secs, self.n - 11 if i[1] is None else 8, 'time')
        raise NotImplementedError(f'slice {i} of timestamp')

    def __add__(self, x):
        if isinstance(x, _Stamp):
            if self.part == 'sep' and x.part == 'time':
                return _Stamp(self.secs, self.n + x.n)
        elif x == 'Z' and self.n == 19:
            return _Stamp(self.secs, 20)
        elif x in ('T', ' ') and self.n == 10:
            return _Stamp(self.secs, 11, 'sep')
        raise NotImplementedError(f'timestamp + {x}')

    def _cmp(self, o):
        if not isinstance(o, _Stamp):
            return None
        if self.part or o.part:
            raise NotImplementedError('comparison of part of timestamp')
        if {self.n, o.n} == {10}:
            return self.secs // DAY, o.secs // DAY
        if 10 in (self.n, o.n):
            raise NotImplementedError('comparison of timestamps of different formats')
        return self.secs, o.secs

    def __lt__(self, o):
        a, b = self._cmp(o)
        return bool(a < b)

    def __gt__(self, o):
        a, b = self._cmp(o)
        return bool(a > b)

    def __le__(self, o):
        a, b = self._cmp(o)
        return bool(a <= b)

    def __ge__(self, o):
        a, b = self._cmp(o)
        return bool(a >= b)

    def __eq__(self, o):
        if self.part == 'time' and o == '00:00:00':
            return bool(self.secs - (self.secs // DAY) * DAY == 0)
        t = self._cmp(o)
        return False if t is None else bool(t[0] == t[1])

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return 0


class _FakeDateTime:

    @staticmethod
    def fromisoformat(x):
        x = _known(x)
        if not isinstance(x, _Stamp):
            return _dt.datetime.fromisoformat(x)
        if x.n == 20:
            raise ValueError('Z not expected')
        return _Date((x.secs // DAY) * DAY if x.n == 10 else x.secs)


class _FakeModule:
    datetime = _FakeDateTime

    @staticmethod
    def timedelta(days = 0, hours = 0, minutes = 0, seconds = 0):
        return _Delta(days * DAY + hours * 3600 + minutes * 60 + seconds)


def _known(x):
    return BOOK.get(str.__str__(x), x) if isinstance(x, str) and not isinstance(x, _Stamp) else x


class Clock:
    """makes and reads timestamps; stands for the datetime module when they are symbolic"""

    def __init__(self, c, n = 20):
        self.c, self.n = c, n

    def __enter__(self):
        self.kept = [(m, 'dt', m.dt) for m in (rqts_td, rqts_ts)]
        if self.c.symbolic:
            BOOK.clear()
            for m, a, _ in self.kept:
                setattr(m, a, _FakeModule)
            x = rqts_any.rqet.find_tag_text
            self.kept.append((rqts_any.rqet, 'find_tag_text', x))
            rqts_any.rqet.find_tag_text = lambda *a, **k: _known(x(*a, **k))
        return self

    def __exit__(self, *a):
        for m, n, v in self.kept:
            setattr(m, n, v)
        return False

    def stamp(self, secs):
        if self.c.symbolic:
            return _Stamp(secs, self.n)
        s = (ZERO + _dt.timedelta(seconds = int(secs))).isoformat()
        return s + 'Z' if self.n == 20 else s[:self.n]

    def date(self, secs):
        return _Date(secs) if self.c.symbolic else ZERO + _dt.timedelta(seconds = int(secs))

    def secs(self, stamp):
        x = _known(stamp)
        if isinstance(x, _Stamp):
            return x.secs
        return int((_dt.datetime.fromisoformat(x.rstrip('Z')) - ZERO).total_seconds())

    def all(self, ts):
        return [self.secs(x) for x in ts.timestamps]

    @staticmethod
    def of(duration):
        d = duration.duration
        return d.total_seconds() if isinstance(d, _Delta) else int(d.total_seconds())

    def seconds(self, name, n, rising = True, unit = None):
        """n numbers of seconds, in order; whole days if date only"""
        c = self.c
        u = unit or (DAY if self.n == 10 else 1)
        v = [c.int(f'{name}{e}', 0, FAR // u) for e in range(n)]
        if rising and n > 1:
            c.assume(c.And(*[a < b for a, b in zip(v, v[1:])]))
        return [x * u for x in v]


def _series(k, m, secs, title = 'series'):
    ts = rqts.TimeSeries(m, first_timestamp = k.stamp(secs[0]), title = title)
    for s in secs[1:]:
        ts.add_timestamp(k.stamp(s))
    return ts


FORMS = [dict(form = 20), dict(form = 10)]


@case('C20', bounds = 'series of 4 timestamps, any other timestamp', params = [
    dict(form = f, what = w) for f in (20, 10) for w in ('not_later_than', 'not_earlier_than', 'closest_to', 'equal')])
def search(c, form, what):
    with Clock(c, form) as k:
        t = k.seconds('t', 4)
        q = k.seconds('q', 1)[0]
        ts = _series(k, None, t)
        s = k.stamp(q)
        if what == 'equal':
            i = ts.index_for_timestamp(s)
            c.check('index', c.Or(*[x == q for x in t]) == (i is not None))
            if i is not None:
                c.check('equal', t[i] == q)
        else:
            i = getattr(ts, 'index_for_timestamp_' + what)(s)
            if what == 'closest_to':
                c.check('index', i is not None and 0 <= i < 4)
                d = [x - q for x in t]
                e = d[i]
                c.check('none is closer', c.And(*[c.Or(c.And(e >= 0, c.Or(x >= e, x <= -e)), c.And(e <= 0, c.Or(x >= -e, x <= e)))
                                                  for x in d]))
            elif i is None:
                c.check('none qualifies', c.And(*[x > q if what == 'not_later_than' else x < q for x in t]))
            elif what == 'not_later_than':
                c.check('last not later', c.And(t[i] <= q, *[x > q for x in t[i + 1:]]))
            else:
                c.check('first not earlier', c.And(t[i] >= q, *[x < q for x in t[:i]]))
        c.same('series unchanged', k.all(ts), t)


@case('C20', bounds = 'series of up to 3 timestamps and any other')
def adding(c):
    with Clock(c) as k:
        n = c.fix(c.int('count', 1, 3))
        t = k.seconds('t', n)
        q = k.seconds('q', 1)[0]
        ts = _series(k, None, t)
        ts.add_timestamp(k.stamp(q), allow_insertion = True)
        got = k.all(ts)
        c.same('one more', len(got), n + 1)
        c.check('in order', c.And(*[a <= b for a, b in zip(got, got[1:])]))
        c.check('all there', c.And(*[c.Or(*[g == x for g in got]) for x in t + [q]]))
        c.check('no others', c.And(*[c.Or(*[g == x for x in t + [q]]) for g in got]))
        ts = _series(k, None, t)
        s = k.stamp(q)
        if bool(q > t[-1]):
            ts.add_timestamp(s)
            c.same('appended', k.all(ts), t + [q])
        else:
            c.raises('not later than the last', lambda: ts.add_timestamp(s), AssertionError)
            c.same('not added', k.all(ts), t)


@case('C20', bounds = 'series of 4 timestamps, any two indices', params = FORMS)
def durations(c, form):
    with Clock(c, form) as k:
        t = k.seconds('t', 4)
        ts = _series(k, None, t)
        for a in range(-1, 5):
            for b in range(-1, 5):
                d, days = ts.duration_between_timestamps(a, b), ts.days_between_timestamps(a, b)
                if 0 <= a <= b < 4:
                    c.same(f'duration {a} {b}', k.of(d), t[b] - t[a])
                    c.same(f'days {a} {b}', days, (t[b] - t[a]) // DAY)
                else:
                    c.check(f'no duration {a} {b}', d is None and days is None)
            s, days = ts.step_duration(a), ts.step_days(a)
            if 1 <= a < 4:
                c.same(f'step {a}', k.of(s), t[a] - t[a - 1])
                c.same(f'step days {a}', days, (t[a] - t[a - 1]) // DAY)
            else:
                c.check(f'no step {a}', s is None and days is None)
            if 0 <= a < 4:
                c.same(f'since start {a}', k.of(ts.duration_since_start(a)), t[a] - t[0])
                c.same(f'days since start {a}', ts.days_since_start(a), (t[a] - t[0]) // DAY)
            else:
                c.check(f'none since start {a}', ts.duration_since_start(a) is None)
        c.same('count', ts.number_of_timestamps(), 4)
        c.same('by index', [k.secs(ts.timestamp(x)) for x in range(-4, 4)], t + t)
        c.check('no such index', ts.timestamp(4) is None and ts.timestamp(-5) is None)
        c.same('in turn', [k.secs(x) for x in ts.iter_timestamps()], t)
        c.same('last', k.secs(ts.last_timestamp()), t[-1])
        c.check('dates', all(bool(a == b) for a, b in zip(ts.datetimes(), [k.date(x) for x in t])))


@case('C20', bounds = 'any duration of up to 1000 of each unit, any timestamp')
def stepping(c):
    with Clock(c) as k:
        t = k.seconds('t', 1)[0]
        d = [c.int(x, 0, 1000) for x in ('days', 'hours', 'minutes', 'seconds')]
        n = d[0] * DAY + d[1] * 3600 + d[2] * 60 + d[3]
        g = dict(zip(('days', 'hours', 'minutes', 'seconds'), d if c.symbolic else [int(x) for x in d]))
        x = rqts.TimeDuration(**g)
        c.same('duration', k.of(x), n)
        after = x.timestamp_after_duration(k.stamp(t))
        c.same('after', k.secs(after), t + n)
        c.check('with Z', after.endswith('Z'))
        before = x.timestamp_before_duration(after)
        c.same('and back', k.secs(before), t)
        y = rqts.TimeDuration(earlier_timestamp = k.stamp(t), later_timestamp = after)
        c.same('between', k.of(y), n)
        ts = _series(k, None, [t])
        ts.extend_by_duration(x)
        ts.extend_by_days(g['days'])
        c.same('extended', k.all(ts), [t, t + n, t + n + d[0] * DAY])


@case('C20', bounds = 'any first timestamp, up to 2 steps of each length')
def regular_steps(c):
    with Clock(c) as k:
        t = k.seconds('t', 1)[0]
        n = [c.fix(c.int(x, 0, 2)) for x in ('daily', 'monthly', 'quarterly', 'yearly')]
        ts = rqts.TimeSeries(None, first_timestamp = k.stamp(t), **{x: y or None for x, y in zip(
            ('daily', 'monthly', 'quarterly', 'yearly'), n)})
        want = [t]
        for y, days in zip(n, (1, 30, 90, 365)):
            for _ in range(y):
                want.append(want[-1] + days * DAY)
        c.same('timestamps', k.all(ts), want)


@case('C20', bounds = 'series of 3 timestamps, a second series any distance away, any tolerance', params = FORMS)
def stored(c, form):
    with Clock(c, form) as k:
        m = _model(c)
        t = k.seconds('t', 3)
        ts = _series(k, m, t)
        ts.create_xml()
        g = _grid(m)
        rqp.Property.from_array(m, np.arange(6, dtype = float).reshape((2, 1, 3)), 'test', 'p', g.uuid, property_kind = 'pressure', uom = 'kPa',
                                time_series_uuid = ts.uuid, time_index = 2)
        u = k.seconds('u', 3)
        tol = c.int('tolerance', 0, 10 * DAY)
        other = _series(k, m, u, title = 'other')
        near = c.And(*[c.And(a - b <= tol, b - a <= tol) for a, b in zip(t, u)])
        c.check('equivalent when near', near == bool(ts.is_equivalent(other, tol_seconds = tol if c.symbolic else int(tol))))
        short = _series(k, m, u[:2], title = 'short')
        c.check('not when of another length', not ts.is_equivalent(short) and not ts.is_equivalent(None))
        f = m.epc_file
        m2 = _reopen(c, m)
        x = rqts.any_time_series(m2, ts.uuid)
        y = rqts.TimeSeries(m2, uuid = ts.uuid)
        c.check('class', type(x) is rqts.TimeSeries and x.timeframe == 'human' and x.title == 'series')
        c.check('timeframe', rqts.timeframe_for_time_series_uuid(m2, ts.uuid) == 'human')
        c.same('loaded', k.all(x), t)
        c.same('loaded by class', k.all(y), t)
        p = rqp.Property(m2, uuid = m2.uuid(title = 'p'))
        c.check('property at time', p.time_index() == 2 and str(p.time_series_uuid()) == str(ts.uuid))
        c.raises('not geologic', lambda: rqts.GeologicTimeSeries(m2, uuid = ts.uuid), (ValueError, AssertionError))
        m2.h5_release()


@case('C20', bounds = 'two series of 2 timestamps, any overlap; times of day or midnight', params = FORMS)
def merging(c, form):
    with Clock(c, form) as k:
        m = _model(c)
        unit = DAY if form == 10 else 3600
        t = k.seconds('t', 2, unit = unit)
        u = k.seconds('u', 2, unit = unit)
        if form == 20:    # cleaning shortens timestamps of midnight, so none here
            c.assume(c.And(*[x - (x // DAY) * DAY != 0 for x in t + u]))
        a, b = _series(k, m, t, title = 'one'), _series(k, m, u, title = 'two')
        for x in (a, b):
            x.create_xml()
        new, uid, parts = rqts.merge_timeseries_from_uuid(m, [a.uuid, b.uuid])
        c.check('parts', [str(x.uuid) for x in parts] == [str(a.uuid), str(b.uuid)] and uid == new.uuid)
        got = k.all(new)
        c.check('in order', c.And(*[x < y for x, y in zip(got, got[1:])]))
        c.check('all there', c.And(*[c.Or(*[g == x for g in got]) for x in t + u]))
        c.check('no others', c.And(*[c.Or(*[g == x for x in t + u]) for g in got]))
        if c.fix(c.bool('same order')):
            sel = rqts.selected_time_series(new, [0, len(got) - 1], title = 'ends')
        else:
            sel = rqts.selected_time_series(new, [len(got) - 1, 0], title = 'ends')
        c.same('selected', k.all(sel), [got[0], got[-1]])
        c.same('merged untouched', k.all(new), got)


@case('C20', bounds = 'any time in any order of three; date only when midnight')
def cleaning(c):
    with Clock(c) as k:
        t = k.seconds('t', 1, unit = 3600)[0]
        s = rqts.cleaned_timestamp(k.stamp(t))
        midnight = bool(t - (t // DAY) * DAY == 0)
        c.same('length', len(s), 10 if midnight else 20)
        c.same('time', k.secs(s), t)
        r = rqts.simplified_timestamp(k.stamp(t))
        c.same('readable length', len(r), 10 if midnight else 19)
        c.same('readable time', k.secs(r), t)
        v = k.seconds('v', 3, rising = False, unit = 3600)
        c.assume(c.And(v[0] != v[1], v[1] != v[2], v[0] != v[2], *[x - (x // DAY) * DAY != 0 for x in v]))
        ts = rqts.time_series_from_list([k.stamp(x) for x in v], title = 'list')
        got = k.all(ts)
        c.check('in order', c.And(*[x < y for x, y in zip(got, got[1:])]))
        c.check('all there', len(got) == 3 and c.And(*[c.Or(*[g == x for g in got]) for x in v]))


@case('C20', bounds = 'any three distinct years before present, positive or negative, any other')
def geologic(c):
    m = _model(c)
    y = [c.int(f'y{e}', -4000000000, 4000000000) for e in range(3)]
    q = c.int('q', -4000000000, 0)
    years = [-abs(x) for x in y]
    c.assume(c.And(years[0] != years[1], years[1] != years[2], years[0] != years[2]))
    a = rqts.GeologicTimeSeries.from_year_list(m, [x if c.symbolic else int(x) for x in y], title = 'old')
    b = rqts.time_series_from_list([x if c.symbolic else int(x) for x in y], parent_model = m, title = 'listed')
    for name, s in (('from years', a), ('from list', b)):
        got = s.timestamps
        c.check(name + ' in order', c.And(got[0] < got[1], got[1] < got[2]))
        c.check(name + ' all there', len(got) == 3 and c.And(*[c.Or(*[g == x for g in got]) for x in years]))
        c.same(name + ' timeframe', s.timeframe, 'geologic')
    c.check('equivalent', a.is_equivalent(b))
    a.create_xml()
    i = a.index_for_timestamp(q if c.symbolic else int(q))
    c.check('index', c.Or(*[x == q for x in years]) == (i is not None))
    if i is not None:
        c.check('equal', a.timestamps[i] == q)
    c.same('not text', [a.timestamp(e, as_string = False) for e in range(3)], list(a.timestamps))
    m2 = _reopen(c, m)
    x = rqts.any_time_series(m2, a.uuid)
    c.check('class', type(x) is rqts.GeologicTimeSeries and x.title == 'old')
    c.check('timeframe', rqts.timeframe_for_time_series_uuid(m2, a.uuid) == 'geologic')
    c.same('loaded', list(x.timestamps), list(a.timestamps))
    c.check('loaded equivalent', x.is_equivalent(b) and a.is_equivalent(x))
    other = rqts.GeologicTimeSeries.from_year_list(m2, [q if c.symbolic else int(q)] + [z if c.symbolic else int(z) for z in y[1:]])
    if bool(q != years[0]):
        c.check('not equivalent', not x.is_equivalent(other))
    c.raises('not human', lambda: rqts.TimeSeries(m2, uuid = a.uuid), (ValueError, AssertionError))
    ends = rqts.selected_time_series(x, [2, 0])
    c.same('selected', list(ends.timestamps), [x.timestamps[0], x.timestamps[2]])
    c.check('selected class', type(ends) is rqts.GeologicTimeSeries)
    new, _, _ = rqts.merge_timeseries_from_uuid(m2, [a.uuid])
    c.same('merged', list(new.timestamps), list(x.timestamps))


def _number(text):
    t = core.untoken(text)
    return float(text) if t is None else t


@case('C20', bounds = 'any whole number of millions of years, or any number of years less than ten million')
def geologic_text(c):
    if c.fix(c.bool('millions')):
        n = c.int('n', 1, 4000)
        years = n * 1000000
    else:
        years = c.int('years', 1, 9999999)
    for sign in (1, -1):
        y = years * sign if c.symbolic else int(years * sign)
        for name, f in (('text', rqts.geologic_time_str), ('cleaned', rqts.cleaned_timestamp), ('simplified', rqts.simplified_timestamp)):
            t = f(y)
            c.check(name + ' in millions of years', t.endswith(' Ma'))
            v = _number(t[:-3]) * 1000000
            c.check(name + ' value', c.And(v + years <= 501, v + years >= -501))
