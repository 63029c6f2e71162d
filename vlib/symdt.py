"""
Datetimes whose wall clock is symbolic, with a symbolic local time zone.

A SymDatetime is an instance of datetime.datetime; everything the code under test may ask of it (tzinfo, comparisons,
astimezone, replace, timestamp, utcoffset, microsecond) follows the documented semantics of datetime over the wall clock
`w`, and nothing else is allowed (HarnessError). All amounts of time in this module (wall clocks, instants, offsets) are
integer numbers of microseconds; those of datetimes and instants count from 1970-01-01 00:00.

Local zone model (`Zone`): one offset change. Before the UTC instant T the offset is o1, from T on it is o2. o1 < o2 is a
spring-forward gap, o1 > o2 a fall-back fold. This covers any zone on any window with at most one transition.
"""
import datetime as dt
import fractions

from vlib import symex
from vlib.symex import And, HarnessError, Ite, Not, Or, SymBool, SymNum, _z

UTC = dt.timezone.utc
EPOCH = dt.datetime(1970, 1, 1)


def num(x):
    return SymNum(_z(x)) if not isinstance(x, SymNum) else x


def us(td):
    return td // dt.timedelta(microseconds=1)


class SymSeconds(SymNum):
    """A POSIX timestamp: the real number of seconds of `us` microseconds."""

    __slots__ = ("us",)

    def __init__(self, us):
        super().__init__((num(us) / 10**6).e)
        self.us = num(us)

    def __hash__(self):
        return 0

    def __round__(self, n=None):
        if n is not None and n >= 6:
            return self
        return super().__round__(n)


def from_seconds(t):
    """A symbolic timestamp in seconds as microseconds (rounded half up)."""
    if isinstance(t, SymSeconds):
        return t.us
    t = num(t)
    if t.e.is_int():
        return t * 10**6
    return (t * 10**6 + fractions.Fraction(1, 2)).floor()


class Zone:
    """Local time zone: offset o1 (east) before instant T, o2 from T on."""

    def __init__(self, o1=0, o2=0, T=0):
        self.o1, self.o2, self.T = o1, o2, T

    def offset_at(self, instant):
        return Ite(instant < self.T, self.o1, self.o2)

    def to_local(self, instant):
        """-> (wall, fold)"""
        before = instant < self.T
        wall = Ite(before, instant + self.o1, instant + self.o2)
        # fold = 1: this wall time already occurred before the transition.
        fold = And(Not(before), self.o2 < self.o1, wall < self.T + self.o1)
        return wall, fold

    def to_instant(self, wall, fold):
        """The instant of a naive local wall time (PEP 495)."""
        # u1: read with o1; u2: read with o2.
        u1 = wall - self.o1
        u2 = wall - self.o2
        valid1 = u1 < self.T
        valid2 = Not(u2 < self.T)
        both = And(valid1, valid2)  # fold
        neither = And(Not(valid1), Not(valid2))  # gap
        # both: fold=0 is the first one (o1), fold=1 the second (o2).
        # gap: fold=0 uses the offset before the transition (o1), fold=1 the one after (o2).
        pick = Ite(fold, u2, u1)
        return Ite(Or(both, neither), pick, Ite(valid1, u1, u2))


UTC_ZONE = Zone(0, 0, 0)
_UNSET = object()


class SymDatetime(dt.datetime):
    """w: wall clock; tz: None or tzinfo; fold: bool or SymBool; zone: the local zone model."""

    def __new__(cls, w, tz=None, fold=False, zone=UTC_ZONE):
        self = super().__new__(cls, 2024, 1, 1)
        self._w = num(w)
        self._tz = tz
        self._fold = fold
        self._zone = zone
        return self

    # -- parts
    @property
    def tzinfo(self):
        return self._tz

    @property
    def fold(self):
        f = self._fold
        return f if isinstance(f, int) and not isinstance(f, bool) else int(bool(f))

    def _parts(self):
        raise HarnessError("calendar fields of a symbolic datetime are not modelled")

    year = month = day = hour = minute = second = property(_parts)

    @property
    def microsecond(self):
        return self._w % 10**6

    def _unmodelled(self, *a, **k):
        raise HarnessError("operation on a symbolic datetime is not modelled")

    date = time = timetz = timetuple = utctimetuple = toordinal = isocalendar = weekday = _unmodelled
    strftime = isoformat = ctime = __reduce__ = __reduce_ex__ = _unmodelled

    def __repr__(self):
        return f"<SymDatetime {self._w} {self._tz}>"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def _fixed_offset(self, tz):
        if type(tz) is dt.timezone:
            return us(tz.utcoffset(None))
        raise HarnessError(f"tzinfo {tz!r} is not modelled")

    def _instant(self):
        if self._tz is None:
            return self._zone.to_instant(self._w, self._fold)
        if isinstance(self._tz, ZoneTz):
            return self._tz.zone.to_instant(self._w, self._fold)
        if isinstance(self._tz, SymTz):
            return self._w - self._tz.offset
        return self._w - self._fixed_offset(self._tz)

    def utcoffset(self):
        if self._tz is None:
            return None
        if isinstance(self._tz, ZoneTz):
            return SymTimedelta(self._w - self._instant())
        if isinstance(self._tz, SymTz):
            return SymTimedelta(self._tz.offset)
        return self._tz.utcoffset(None)

    def dst(self):
        return None

    def timestamp(self):
        return SymSeconds(self._instant())

    def astimezone(self, tz=None):
        if tz is not None and not isinstance(tz, dt.tzinfo):
            raise TypeError("tz argument must be an instance of tzinfo")
        if tz is not None and tz is self._tz:
            return self
        u = self._instant()
        if tz is None:
            wall, fold = self._zone.to_local(u)
            return SymDatetime(wall, SymTz(wall - u), False, self._zone)
        if isinstance(tz, ZoneTz):
            wall, fold = tz.zone.to_local(u)
            return SymDatetime(wall, tz, fold, self._zone)
        off = tz.offset if isinstance(tz, SymTz) else self._fixed_offset(tz)
        return SymDatetime(u + off, tz, False, self._zone)

    def replace(self, *args, tzinfo=_UNSET, fold=_UNSET, microsecond=_UNSET, **kw):
        if args or kw:
            raise HarnessError("replace() of calendar fields is not modelled")
        return SymDatetime(
            self._w if microsecond is _UNSET else self._w - self._w % 10**6 + microsecond,
            self._tz if tzinfo is _UNSET else tzinfo,
            self._fold if fold is _UNSET else bool(fold),
            self._zone,
        )

    # -- comparisons
    def _other(self, o):
        if isinstance(o, SymDatetime):
            return o
        if isinstance(o, dt.datetime):
            w = us(o.replace(tzinfo=None) - EPOCH)
            return SymDatetime(w, o.tzinfo, bool(o.fold), self._zone)
        return None

    def _cmp(self, o, op, equality=False):
        o = self._other(o)
        if o is None:
            return NotImplemented
        if self._tz is o._tz:
            return op(self._w, o._w)
        if (self._tz is None) != (o._tz is None):
            if equality:
                return op is _ne
            raise TypeError("can't compare offset-naive and offset-aware datetimes")
        return op(self._instant(), o._instant())

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, _eq, True)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, _ne, True)
        return True if r is NotImplemented else r

    def __hash__(self):
        return 0

    # -- arithmetic
    def __sub__(self, o):
        if isinstance(o, SymTimedelta):
            return SymDatetime(self._w - o.s, self._tz, False, self._zone)
        if isinstance(o, dt.timedelta):
            return SymDatetime(self._w - us(o), self._tz, False, self._zone)
        o = self._other(o)
        if o is None:
            return NotImplemented
        if self._tz is o._tz:
            return SymTimedelta(self._w - o._w)
        if (self._tz is None) != (o._tz is None):
            raise TypeError("can't subtract offset-naive and offset-aware datetimes")
        return SymTimedelta(self._instant() - o._instant())

    def __rsub__(self, o):
        o = self._other(o)
        return NotImplemented if o is None else o - self

    def __add__(self, o):
        if isinstance(o, SymTimedelta):
            return SymDatetime(self._w + o.s, self._tz, False, self._zone)
        if isinstance(o, dt.timedelta):
            return SymDatetime(self._w + us(o), self._tz, False, self._zone)
        return NotImplemented

    __radd__ = __add__


def _eq(a, b):
    return a == b


def _ne(a, b):
    return a != b


class SymTz(dt.tzinfo):
    """A fixed offset whose amount is symbolic."""

    def __init__(self, offset):
        self.offset = offset

    def utcoffset(self, d):
        return SymTimedelta(self.offset)

    def dst(self, d):
        return None

    def tzname(self, d):
        return "SymTz"

    def fromutc(self, d):
        return SymDatetime(d._w + self.offset, self, False, d._zone)


class ZoneTz(dt.tzinfo):
    """A zone with one offset change (symbolic or not), as zoneinfo would give it; also for real datetimes (replay)."""

    def __init__(self, zone):
        self.zone = zone

    def utcoffset(self, d):
        if isinstance(d, SymDatetime):
            return SymTimedelta(d._w - self.zone.to_instant(d._w, d._fold))
        w = us(d.replace(tzinfo=None, fold=0) - EPOCH)
        return dt.timedelta(microseconds=w - int(self.zone.to_instant(w, bool(d.fold))))

    def dst(self, d):
        return None

    def tzname(self, d):
        return "ZoneTz"

    def fromutc(self, d):
        if isinstance(d, SymDatetime):
            wall, fold = self.zone.to_local(d._w)
            return SymDatetime(wall, self, fold, d._zone)
        wall, fold = self.zone.to_local(us(d.replace(tzinfo=None, fold=0) - EPOCH))
        return (EPOCH + dt.timedelta(microseconds=int(wall))).replace(tzinfo=self, fold=int(bool(fold)))


class SymTimedelta(dt.timedelta):
    def __new__(cls, s):
        self = super().__new__(cls)
        self.s = num(s)
        return self

    @staticmethod
    def _s(o):
        if isinstance(o, SymTimedelta):
            return o.s
        if isinstance(o, dt.timedelta):
            return us(o)
        return None

    def total_seconds(self):
        return SymSeconds(self.s)

    def _op(self, o, f):
        s = self._s(o)
        return NotImplemented if s is None else f(self.s, s)

    def __lt__(self, o):
        return self._op(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._op(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._op(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._op(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._op(o, _eq)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return symex.Not(self == o)

    def __hash__(self):
        return 0

    def __neg__(self):
        return SymTimedelta(-self.s)

    def __add__(self, o):
        if isinstance(o, dt.datetime):
            return NotImplemented
        return self._op(o, lambda a, b: SymTimedelta(a + b))

    __radd__ = __add__

    def __sub__(self, o):
        return self._op(o, lambda a, b: SymTimedelta(a - b))

    def __bool__(self):
        return bool(self.s != 0)

    @property
    def days(self):
        raise HarnessError("timedelta parts are not modelled")

    seconds = microseconds = days


BASE = 1704067200 * 10**6  # 2024-01-01T00:00:00Z


def instant(ctx, s):
    """An aware datetime (UTC) `s` microseconds after BASE: real in replay, symbolic otherwise."""
    if ctx.concrete:
        return dt.datetime(2024, 1, 1, tzinfo=UTC) + dt.timedelta(microseconds=int(s))
    return SymDatetime(num(s) + BASE, UTC)
