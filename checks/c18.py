import contextlib
import datetime as dt
import os
import shutil
import tempfile
import time
import types

import uberjob
from vlib import symdt
from vlib.run import Job
from vlib.symdt import BASE, SymDatetime, SymTz, UTC, Zone, ZoneTz, num
from vlib.symex import And, HarnessError, Iff, Not, Or, SymNum
from vlib.world import World

LEVEL = "other"
EXPLANATION = (
    "uberjob.run executed symbolically on stores whose modified times are symbolic instants, each reported as a naive local "
    "datetime, an aware UTC datetime, an aware datetime with a symbolic offset, or through the real file stores "
    "(os.stat returning a symbolic st_mtime), under a symbolic local time zone (two offsets and a transition instant, so gaps "
    "and folds are included); fresh_time likewise. On every path the solver decides that exactly the stores that are out of "
    "date by their instants were rewritten. Counterexamples are replayed with real datetimes, real files and a real TZ."
)
ASSUMPTIONS = [
    "datetimes follow PEP 495 semantics in the modelled zone (vlib/symdt.py); within the window of the instants there is at most one transition, which includes both kinds of daylight-saving change",
    "modified times are whole microseconds (finer times of a file system are not modelled), offsets whole minutes of at most 14 h, offset changes of at most 3 h",
]
WITNESSES = ("stale", "fresh", "fold", "gap", "naive-fold", "mixed")
BOUNDS = {
    "plans": "chains and diamonds of up to 3 (thorough: 4) stored nodes, sources, dependent sources, dependencies without data",
    "forms": "naive / UTC / fixed offset / aware in a zone with a transition of its own (one tzinfo object shared by all) / file store / LiteralSource per store, the first four for fresh_time, chosen independently",
    "zone": "any o1, o2, one transition",
}
S = 10**6
DAY = 86400 * S
WINDOW = 20 * DAY
T_DAY = 150  # 2024-05-30


def real(us, tz=None):
    """The real datetime `us` microseconds after 1970."""
    return dt.datetime.fromtimestamp(us // S, tz).replace(microsecond=us % S)


class Forms:
    """Turns an instant (microseconds after BASE) into a datetime of the chosen form."""

    def __init__(self, ctx, zoned):
        self.ctx = ctx
        o1 = ctx.int("o1", -14 * 60, 14 * 60)
        d = ctx.int("o_change", -180, 180) if zoned else 0
        self.o1, self.o2 = o1 * 60 * S, (o1 + d) * 60 * S
        self.T = (ctx.int("transition", 0, 86399) + T_DAY * 86400) * S
        if not ctx.concrete:
            self.zone = Zone(self.o1, self.o2, self.T + BASE)
        self.n = 0
        self._zoned = None

    def zoned(self):
        """A zone of its own, which changes its offset at another instant; all datetimes in it share the tzinfo."""
        if self._zoned is None:
            o1 = self.ctx.int("z1", -14 * 60, 14 * 60)
            o2 = o1 + self.ctx.int("z_change", -180, 180)
            T = (self.ctx.int("z_transition", 0, 86399) + T_DAY * 86400) * S
            self._zoned = ZoneTz(Zone(o1 * 60 * S, o2 * 60 * S, T + BASE))
        return self._zoned

    def local(self, t):
        if self.ctx.concrete:
            return real(BASE + int(t))
        wall, fold = self.zone.to_local(num(t) + BASE)
        return SymDatetime(wall, None, fold, self.zone)

    def make(self, form, t, name):
        if form == "naive":
            return self.local(t)
        if form == "utc":
            if self.ctx.concrete:
                return real(BASE + int(t), UTC)
            return SymDatetime(num(t) + BASE, UTC, False, self.zone)
        if form == "zoned":
            tz = self.zoned()
            if self.ctx.concrete:
                return real(BASE + int(t), UTC).astimezone(tz)
            wall, fold = tz.zone.to_local(num(t) + BASE)
            return SymDatetime(wall, tz, fold, self.zone)
        off = self.ctx.int(f"offset_{name}", -14 * 60, 14 * 60) * 60 * S
        if self.ctx.concrete:
            return real(BASE + int(t), dt.timezone(dt.timedelta(microseconds=int(off))))
        return SymDatetime(num(t) + BASE + off, SymTz(off), False, self.zone)


def posix_tz(o1, o2, T):
    """A TZ string with offset o1 before instant T of 2024 (after BASE) and o2 after it, for weeks on both sides."""

    o1, o2, T = o1 // S, o2 // S, T // S

    def off(o):
        s = "-" if o > 0 else ""
        o = abs(o)
        return f"{s}{o // 3600}:{o % 3600 // 60:02}:{o % 60:02}"

    if o1 == o2:
        return f"<AAA>{off(o1)}"

    def rule(wall):  # seconds on the clock since new year -> Julian day rule (n: zero-based, counts leap days)
        day, s = divmod(wall, 86400)
        return f"{day}/{s // 3600}:{s % 3600 // 60:02}:{s % 60:02}"

    far = (T_DAY + 150) * 86400
    if o1 < o2:  # standard o1 until T, then daylight o2
        return f"<AAA>{off(o1)}<BBB>{off(o2)},{rule(T + o1)},{rule(far)}"
    return f"<AAA>{off(o2)}<BBB>{off(o1)},{rule(far)},{rule(T + o1)}"


class FakeTime:
    """Stands in for the datetime module inside uberjob: conversions from timestamps are made in the modelled zone."""

    def __init__(self, forms):
        class Meta(type):
            def __instancecheck__(cls, x):
                return isinstance(x, dt.datetime)

        class datetime(metaclass=Meta):
            min, max = dt.datetime.min, dt.datetime.max

            def __new__(cls, *a, **k):
                return dt.datetime(*a, **k)

            @staticmethod
            def fromtimestamp(t, tz=None):
                if not isinstance(t, SymNum):
                    return dt.datetime.fromtimestamp(t, tz)
                t = symdt.from_seconds(t)
                if tz is None:
                    wall, fold = forms.zone.to_local(t)
                    return SymDatetime(wall, None, fold, forms.zone)
                return SymDatetime(t, UTC, False, forms.zone).astimezone(tz)

            @staticmethod
            def utcfromtimestamp(t):
                return SymDatetime(symdt.from_seconds(t), None, False, forms.zone)

            @staticmethod
            def combine(*a, **k):
                return dt.datetime.combine(*a, **k)

            @staticmethod
            def now(tz=None):
                raise HarnessError("now() is not modelled")

            utcnow = today = now

        self.datetime = datetime

    def __getattr__(self, name):
        return getattr(dt, name)


@contextlib.contextmanager
def environment(ctx, forms, times):
    """times: {path: instant}. Symbolic: os.stat answers for the paths. Replay: real files, a real TZ."""
    if ctx.concrete:
        old = os.environ.get("TZ")
        d = tempfile.mkdtemp(prefix="c18-")
        os.environ["TZ"] = posix_tz(int(forms.o1), int(forms.o2), int(forms.T))
        time.tzset()
        try:
            def path(name):
                p = os.path.join(d, name)
                if not os.path.exists(p):
                    with open(p, "w") as f:
                        f.write("null")
                os.utime(p, ns=((BASE + int(times[name])) * 1000,) * 2)
                return p

            yield path
        finally:
            if old is None:
                del os.environ["TZ"]
            else:
                os.environ["TZ"] = old
            time.tzset()
            shutil.rmtree(d)
        return
    import sys

    real = os.stat
    prefix = "/nonexistent/c18/"

    def stat(path, *a, **k):
        p = os.fspath(path) if not isinstance(path, int) else ""
        if isinstance(p, str) and p.startswith(prefix):
            name = p[len(prefix) :]
            if name not in times:
                raise FileNotFoundError(p)
            t = num(times[name]) + BASE
            return types.SimpleNamespace(st_mtime=symdt.SymSeconds(t), st_mtime_ns=t * 1000, st_size=1, st_mode=0o100644)
        return real(path, *a, **k)

    fake = FakeTime(forms)
    patched = []
    for name, m in list(sys.modules.items()):
        if name.startswith("uberjob"):
            for attr, v in list(vars(m).items()):
                if v is dt:
                    patched.append((m, attr, v))
                    setattr(m, attr, fake)
                elif v is dt.datetime:
                    patched.append((m, attr, v))
                    setattr(m, attr, fake.datetime)
    os.stat = stat
    try:
        yield lambda name: prefix + name
    finally:
        os.stat = real
        for m, attr, v in patched:
            setattr(m, attr, v)


class ZonedWorld(World):
    forms = None
    path = None
    form_of = {}
    times = {}

    def datetime(self, i, number):
        form = self.form_of[i]
        if not self.stores[i].initial:
            return symdt.instant(self.ctx, number) if self.ctx.concrete else SymDatetime(num(number) + BASE, UTC, False, self.forms.zone)
        if form == "file":
            self.times[f"s{i}"] = number
            return self.file_class(i)(self.path(f"s{i}")).get_modified_time()
        if form == "literal":
            return uberjob.stores.LiteralSource(None, self.forms.make("naive", number, i)).get_modified_time()
        return self.forms.make(form, number, i)

    def file_class(self, i):
        return [uberjob.stores.JsonFileStore, uberjob.stores.TouchFileStore, uberjob.stores.PathSource][i % 3]


FORMS = ["naive", "utc", "offset", "zoned", "file", "literal"]


def harness(ctx, kinds, edges, zoned=True, forms=FORMS, fresh=True):
    w = ZonedWorld(ctx, kinds, edges)
    w.forms = f = Forms(ctx, zoned)
    w.form_of = {i: ctx.choose(f"form{i}", forms) for i in sorted(w.stores)}
    w.times = {}
    lo, hi = T_DAY * DAY - WINDOW, T_DAY * DAY + WINDOW
    # Instants, as numbers of microseconds after BASE.
    for i, s in sorted(w.stores.items()):
        s.present = True
        s.initial = True
        s.good = True
        s.mtime = ctx.int(f"mtime{i}", lo, hi)
    w.base = hi
    ft = fr = None
    form = ctx.choose("fresh_form", [None, "naive", "utc", "offset"]) if fresh else None
    with environment(ctx, f, w.times) as path:
        w.path = path
        if form:
            fr = ctx.int("fresh", lo, hi)
            ft = f.make(form, fr, "fresh")
        ood = w.stores and {}
        memo = {}
        ood = {i: w.out_of_date(i, fr, memo) for i in sorted(w.stores)}
        r = w.run(None, fresh_time=ft)
    ctx.note("world", {**w.describe(), "forms": str(w.form_of), "fresh": form})
    ctx.check(r.ok, f"run raised although nothing failed: {r!r}")
    for i in sorted(w.stores):
        if w.kinds[i] in "RM":
            n = w.count("write", i)
            ctx.check(Iff(ood[i], n == 1), f"store {i} ({w.form_of}, fresh_time {form}) was {'not ' * (n == 0)}rewritten, contrary to the instants")
            ctx.tag("stale" if n else "fresh")
    if not ctx.concrete:
        i = min(w.stores)
        wall, fold = f.zone.to_local(num(w.stores[i].mtime) + BASE)
        if ctx.feasible(fold):
            ctx.tag("fold")
            if w.form_of[i] == "naive":
                ctx.tag("naive-fold")
        if ctx.feasible(And(f.o2 > f.o1, w.stores[i].mtime > f.T)):
            ctx.tag("gap")
        if len(set(w.form_of.values())) > 1:
            ctx.tag("mixed")


def jobs(tier):
    thorough = tier == "thorough"
    two = [
        ("pair", "SR", {(0, 1): "a"}),
        ("pair-RR", "RR", {(0, 1): "a"}),
        ("pair-dep", "RR", {(0, 1): "d"}),
        ("through-call", "RCR", {(0, 1): "a", (1, 2): "a"}),
        ("single", "R", {}),
        ("stored-lit", "MR", {(0, 1): "a"}),
    ]
    three = [
        ("two-up", "SSR", {(0, 2): "a", (1, 2): "a"}),
        ("chain", "SRR", {(0, 1): "a", (1, 2): "a"}),
        ("dsource", "SD", {(0, 1): "d"}),
        ("dsource-chain", "RDR", {(0, 1): "d", (1, 2): "a"}),
    ]
    out = [Job(f"two-{n}", harness, dict(kinds=k, edges=e)) for n, k, e in two]
    out += [Job(f"three-{n}", harness, dict(kinds=k, edges=e, forms=FORMS if thorough else FORMS[:-1])) for n, k, e in three]
    four = [
        ("three-up", "SSSR", {(0, 3): "a", (1, 3): "a", (2, 3): "d"}),
        ("chain4", "SRRR", {(0, 1): "a", (1, 2): "a", (2, 3): "a"}),
        ("diamond", "SRRR", {(0, 1): "a", (0, 2): "a", (1, 3): "a", (2, 3): "a"}),
        ("through", "SCRCR", {(0, 1): "a", (1, 2): "a", (2, 3): "a", (3, 4): "a"}),
        ("lit", "RLRD", {(0, 1): "d", (1, 2): "d", (2, 3): "d"}),
    ]
    if thorough:
        out += [Job(f"four-{n}", harness, dict(kinds=k, edges=e)) for n, k, e in four]
    return out
