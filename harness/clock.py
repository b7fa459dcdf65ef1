"""A clock whose readings and instants may be symbolic, in place of that of the machine.

Instants are numbers of seconds of UTC. As with datetime, an instant without a time zone compares
only with another one without; `now()` with no time zone reads the local time of the machine,
which is `offset` seconds away from UTC. `aware=None` makes an instant that compares with both."""
import datetime as _datetime
import time as _time

from symex.api import Inconclusive


class Instant:
    now_ = 0
    offset = 0

    def __init__(self, t, aware=False):
        self.t = t
        self.aware = aware

    @property
    def tzinfo(self):
        return _datetime.UTC if self.aware else None

    @classmethod
    def utcnow(cls):
        return cls(cls.now_)

    @classmethod
    def now(cls, tz=None):
        return cls(cls.now_, True) if tz is not None else cls(cls.now_ + cls.offset)

    @classmethod
    def today(cls):
        return cls.now()

    @classmethod
    def fromtimestamp(cls, t, tz=None):
        return cls(t, True) if tz is not None else cls(t + cls.offset)

    @classmethod
    def utcfromtimestamp(cls, t):
        return cls(t)

    def replace(self, **kw):
        if list(kw) == ['tzinfo']:
            return Instant(self.t, kw['tzinfo'] is not None)
        return self

    def date(self):
        return Instant(self.t // 86400 * 86400, None)

    def utctimetuple(self):
        raise Inconclusive('the calendar of an instant')

    timetuple = strftime = isoformat = utctimetuple

    @property
    def microsecond(self):
        return 0

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Inconclusive(f'{name} of an instant')

    def astimezone(self, tz=None):
        return self if self.aware else Instant(self.t - Instant.offset, True)

    def timestamp(self):
        return self.t if self.aware else self.t - Instant.offset

    def __add__(self, delta):
        return Instant(self.t + delta.total_seconds(), self.aware)

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, Instant):
            self._same(o)
            return Duration(self.t - o.t)
        return Instant(self.t - o.total_seconds(), self.aware)

    def _same(self, o):
        if not isinstance(o, Instant):
            raise TypeError(f"comparison between an instant and {type(o).__name__}")
        if None not in (self.aware, o.aware) and self.aware != o.aware:
            raise TypeError("can't compare offset-naive and offset-aware datetimes")

    def __lt__(self, o):
        self._same(o)
        return self.t < o.t

    def __le__(self, o):
        self._same(o)
        return self.t <= o.t

    def __gt__(self, o):
        self._same(o)
        return self.t > o.t

    def __ge__(self, o):
        self._same(o)
        return self.t >= o.t

    def __eq__(self, o):
        return (isinstance(o, Instant) and (None in (self.aware, o.aware) or self.aware == o.aware)
                and self.t == o.t)

    def __hash__(self):
        return 0

    def __repr__(self):
        return f'<instant {self.t}{" UTC" if self.aware else ""}>'


class Duration:
    def __init__(self, t):
        self.t = t

    def total_seconds(self):
        return self.t

    def _of(self, o):
        return o.t if isinstance(o, Duration) else o.total_seconds()

    def __add__(self, o):
        if isinstance(o, Instant):
            return Instant(o.t + self.t, o.aware)
        return Duration(self.t + self._of(o))

    def __sub__(self, o):
        return Duration(self.t - self._of(o))

    def __rsub__(self, o):
        return Duration(self._of(o) - self.t)

    def __neg__(self):
        return Duration(-self.t)

    def __mul__(self, n):
        return Duration(self.t * n)

    def __truediv__(self, o):
        return self.t / (o if isinstance(o, int | float) else self._of(o))

    __radd__ = __add__
    __rmul__ = __mul__

    @property
    def days(self):
        return self.t // 86400

    @property
    def seconds(self):
        return self.t % 86400

    microseconds = 0

    def __bool__(self):
        return bool(self.t != 0)

    def __eq__(self, o):
        return isinstance(o, Duration | _datetime.timedelta) and self.t == self._of(o)

    def __hash__(self):
        return 0

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Inconclusive(f'{name} of a duration')

    def __lt__(self, o):
        return self.t < self._of(o)

    def __le__(self, o):
        return self.t <= self._of(o)

    def __gt__(self, o):
        return self.t > self._of(o)

    def __ge__(self, o):
        return self.t >= self._of(o)


def install(sx, offset=0):
    """Have the code of siotls read this clock, at 0 and `offset` away from UTC."""
    Instant.now_ = 0
    Instant.offset = offset
    sx.cleanup(lambda: setattr(Instant, 'now_', 0))
    sx.cleanup(lambda: setattr(Instant, 'offset', 0))
    sx.patches.everywhere(_datetime.datetime, Instant, extra=((_datetime, 'datetime'),))
    sx.patches.everywhere(_time.time, lambda: Instant.now_, extra=((_time, 'time'),))
