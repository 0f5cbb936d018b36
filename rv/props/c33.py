"""C33: frequency of regular dates and its year fraction."""

import numpy as np
import pandas as pd

from quantfinlib._datatypes.timeseries import time_series_freq, time_series_freq_to_duration
from rv.core import snapshot
from rv.gens import coin, pick, size

FREQS = ["D", "B", "W", "MS", "ME", "QS", "QE", "YS", "YE"]
YEARS = {"D": 1 / 365, "B": 1 / 252, "W": 7 / 365, "M": 1 / 12, "Q": 1 / 4, "Y": 1.0}
RULE = "distinct (kind of dates, length, start weekday or month, time zone, freq attribute) recognised in three containers"
REQUIRED = ["freq_" + f for f in FREQS] + ["irregular", "short", "no_dates", "anchored", "unknown", "three_dates", "clock_change", "holidays", "time_of_day", "no_freq_attribute", "three_containers", "duration", "fixed_step", "irregular_hours", "three_irregular", "changing", "broken_weeks"]


def regular(rng, f, n):
    start = pd.Timestamp("1970-01-01") + pd.Timedelta(int(rng.integers(0, 25000)), unit="D")
    if coin(rng, 0.3):
        start += pd.Timedelta(int(rng.integers(1, 86399)), unit="s")
    tz = pick(rng, [None, None, None, "UTC", "Europe/Amsterdam", "America/New_York"])
    if tz and tz != "UTC":
        start = start.normalize() + pd.Timedelta(12, unit="h")
    made = f if f != "W" else pick(rng, ["W", "W-MON", "W-TUE", "W-WED", "W-THU", "W-FRI", "W-SAT"])
    if f == "B":  # make sure that a weekend is skipped
        first = start.normalize() + (start - start.normalize())
        back = int(rng.integers(0, n - 1))
        friday = first + pd.Timedelta((4 - first.dayofweek) % 7, unit="D")
        start = friday - pd.offsets.BusinessDay(back)
    idx = pd.date_range(start, periods=n, freq=made)
    return idx if tz is None else idx.tz_localize(tz)


def containers(mon, rng, idx):
    """The answer for the index, a Series and a frame on it."""
    n = len(idx)
    objs = [idx, pd.Series(rng.normal(size=n), index=idx), pd.DataFrame(rng.normal(size=(n, 2)), index=idx)]
    before = snapshot([idx])
    got = [mon.call(time_series_freq, o) for o in objs]
    mon.check(got[0] == got[1] == got[2], f"index, series and frame give {got}")
    mon.check(snapshot([idx]) == before, "dates modified")
    mon.seen("three_containers")
    return got[0]


def recognised(mon, rng):
    f = pick(rng, FREQS)
    n = size(rng, 3, pick(rng, [8, 40, 400 if f in "DBW" else 100]))
    idx = regular(rng, f, n)
    if f == "B" and n >= 30 and coin(rng, 0.4):  # holidays: at most one in twenty days
        keep = np.ones(n, bool)
        keep[rng.permutation(np.arange(5, n - 5, 20))[: int(rng.integers(1, 4))] + rng.integers(0, 3)] = False
        idx = idx[keep]
        if ((idx.dayofweek[:-1] == 4) & (idx.dayofweek[1:] == 0)).any():
            mon.seen("holidays")
        else:
            return
    attr = coin(rng)
    if not attr:
        idx = pd.DatetimeIndex(idx, freq=None)
        idx.freq = None
        mon.seen("no_freq_attribute")
    elif f in "DW" and idx.tz is None and coin(rng, 0.3):
        idx = pd.date_range(idx[0], periods=n, freq=pick(rng, ["24h", "1440min"] if f == "D" else ["7D", "168h"]))
        mon.seen("fixed_step")
    if coin(rng, 0.2):
        idx = idx.as_unit(pick(rng, ["s", "ms", "us"]))
    mon.note(freq=f, dates=idx)
    got = containers(mon, rng, idx)
    mon.check(got == f, f"{n} dates made with frequency {f} are recognised as {got!r}: {list(map(str, idx[:6]))}")
    years = mon.call(time_series_freq_to_duration, got)
    mon.check(years is not None and abs(years - YEARS[f[0]]) < 1e-15, f"year fraction of {got}: {years}")
    mon.seen("freq_" + f)
    mon.seen("three_dates", int(n == 3))
    mon.seen("time_of_day", int(idx[0].hour != 0))
    if idx.tz is not None:
        off = {t.utcoffset() for t in idx}
        mon.seen("clock_change", int(len(off) > 1))
    mon.signature(f, min(n, 40), idx[0].dayofweek if f in "DBW" else idx[0].month, str(idx.tz), attr, idx[0].hour != 0)


def not_recognised(mon, rng):
    k = int(rng.integers(4))
    if k == 0:  # too few dates
        n = int(rng.integers(0, 3))
        idx = pd.date_range("2001-01-01", periods=n, freq=pick(rng, FREQS))
        mon.note(dates=idx)
        mon.check(containers(mon, rng, idx) is None, "frequency inferred from fewer than three dates")
        mon.seen("short")
        mon.signature("short", n)
        return
    if k == 1:  # no dates at all
        n = size(rng, 3, 30, 2000)
        idx = pick(rng, [pd.RangeIndex(n), pd.Index([f"2001-01-{i:02d}" for i in range(1, n + 1)]), pd.period_range("2001-01", periods=n, freq="M"),
                         pd.timedelta_range("1D", periods=n), pd.Index(np.arange(n) * 86400.0)])
        obj = pick(rng, [pd.Series(np.arange(n), index=idx), pd.DataFrame({"a": np.arange(n)}, index=idx), idx, np.arange(n), list(range(n)), None, 3, "D",
                         np.arange(n).astype("datetime64[D]"), pd.Series(pd.date_range("2001-01-01", periods=n))])
        mon.note(obj=obj)
        mon.check(mon.call(time_series_freq, obj) is None, "frequency inferred without date index")
        mon.seen("no_dates")
        mon.signature("no dates", type(obj).__name__, type(getattr(obj, "index", None)).__name__)
        return
    if coin(rng, 0.25):  # gaps of days and hours around a week; or three dates with different gaps
        if coin(rng):
            n = size(rng, 3, 40)
            h = rng.integers(110, 260, n)
            h[h % 24 == 0] += 1
        else:
            n = 3
            g = rng.integers(1, 26, 2)
            if g[0] == g[1] or set(g.tolist()) <= {1, 3}:
                return
            h = np.concatenate([[0], g * 24])
        idx = pd.DatetimeIndex(pd.Timestamp("1980-01-05 09:00") + pd.to_timedelta(int(rng.integers(0, 9000)), unit="D") + pd.to_timedelta(np.cumsum(h), unit="h"))
        edge = idx.is_month_start | idx.is_month_end
        if edge.sum() >= 2 or (np.diff(idx.values) % np.timedelta64(7 * 24, "h") == np.timedelta64(0)).sum() >= 2:
            return
        mon.note(dates=idx)
        mon.check(containers(mon, rng, idx) is None, f"irregular dates are taken as regular: {list(map(str, idx[:8]))}")
        mon.seen("irregular")
        mon.seen("irregular_hours" if n != 3 else "three_irregular")
        mon.signature("irregular", "hours", n)
        return
    if coin(rng, 0.15):  # weekly dates with some other gaps, also first and last ones
        n = size(rng, 10, 200)
        d = np.full(n, 7)
        at = np.unique(np.concatenate([rng.permutation(n)[: int(rng.integers(2, 6))], [0, n - 1]]))
        if len(at) < 4:
            return
        d[at] = np.array([2, 4, 5, 6, 8, 9, 12])[rng.integers(0, 7, len(at))]
        idx = pd.Timestamp("1980-01-05") + pd.to_timedelta(int(rng.integers(0, 9000)) + np.concatenate([[0], np.cumsum(d)]), unit="D")
        mon.note(dates=idx)
        mon.check(containers(mon, rng, idx) is None, f"weekly dates with {len(at)} other gaps are taken as regular")
        mon.seen("irregular")
        mon.seen("broken_weeks")
        mon.signature("broken weeks", min(n, 30), len(at))
        return
    if coin(rng, 0.25):  # a regular part, and a part with dates that are not
        f = pick(rng, ["D", "B", "W", "MS", "ME"])
        n = size(rng, 5, 300, 2000 if f in "DBW" else 500)
        part = pd.date_range(pd.Timestamp("1960-01-01") + pd.Timedelta(int(rng.integers(0, 4000)), unit="D"), periods=n, freq=f)
        m = 6 + n // 3
        gaps = np.array([2, 4, 5, 6, 8, 9, 10, 11, 12, 13])[rng.integers(0, 10, m)]
        days = part[-1] + pd.to_timedelta(np.cumsum(gaps), unit="D")
        days = days[~(days.is_month_start | days.is_month_end)]  # dropping dates merges gaps
        first = coin(rng, 0.3)
        if first:  # the irregular part comes first
            days = part[0] - pd.to_timedelta(np.cumsum(gaps)[::-1], unit="D")
            days = days[~(days.is_month_start | days.is_month_end)]
        idx = days.append(part) if first else part.append(days)
        d = np.diff(idx.values).astype("timedelta64[D]").astype(int)
        if len(days) < 4 or np.isin(d, [1, 3]).mean() > 0.85 or (d != 7).sum() < 4 or (d != 1).sum() < 4:
            return
        mon.note(dates=idx)
        mon.check(containers(mon, rng, idx) is None, f"{n} dates with frequency {f} {'after' if first else 'before'} {len(days)} irregular ones are taken as regular")
        mon.seen("irregular")
        mon.seen("changing")
        mon.signature("changing", f, first, min(n, 30))
        return
    # irregular: gaps without a dominating regular one, away from period starts and ends
    n = size(rng, 6, 60, 3000)
    if k == 2:
        gaps = rng.permutation(np.concatenate([np.array([2, 4, 5, 6, 8, 9, 10, 11, 12, 13])[rng.integers(0, 10, n - n // 3)], rng.choice([1, 3, 7], n // 3)]))
        idx = pd.DatetimeIndex(pd.Timestamp("1980-01-05") + pd.to_timedelta(int(rng.integers(0, 9000)) + np.cumsum(gaps), unit="D"))
    else:
        idx = pd.DatetimeIndex(pd.Timestamp("1980-01-05") + pd.to_timedelta(np.cumsum(rng.integers(4000, 80000, n)), unit="s"))
    edge = idx.is_month_start | idx.is_month_end
    if k == 2:
        idx = idx[~edge]
        d = np.diff(idx.values).astype("timedelta64[D]").astype(int)
        if len(idx) < 6 or np.isin(d, [1, 3]).mean() > 0.8 or (d == 7).sum() >= len(d) - 3 or (d == 1).sum() >= len(d) - 3:
            return
    elif edge.sum() >= 2:
        return
    mon.note(dates=idx)
    mon.check(containers(mon, rng, idx) is None, f"irregular dates are taken as regular: {list(map(str, idx[:8]))}")
    mon.seen("irregular")
    mon.signature("irregular", k, min(len(idx), 30))


def durations(mon, rng):
    if coin(rng, 0.5):
        f = pick(rng, FREQS + ["M", "Q", "Y"])
        day, month = pick(rng, ["SUN", "MON", "TUE", "WED", "THU", "FRI", "SAT"]), pick(rng, ["JAN", "FEB", "MAR", "APR", "MAY", "JUN", "JUL", "AUG", "SEP", "OCT", "NOV", "DEC"])
        name = f
        if f == "W" and coin(rng):
            name = "W-" + day
        elif f[0] in "QY" and coin(rng):
            name = f"{f}-{month}"
        mon.seen("anchored", int(name != f))
        got = mon.call(time_series_freq_to_duration, name)
        mon.check(got is not None and abs(got - YEARS[f[0]]) < 1e-15, f"year fraction of {name}: {got}")
    else:
        name = pick(rng, ["XYZ", "", "h", "s", "min", "2D", "d", "b", "me", "DD", "MEE", "EM", "SM", "N", "WEEK", "-D", None, "1", " D", "YEAR"])
        mon.check(mon.call(time_series_freq_to_duration, name) is None, f"unknown frequency {name!r} has a year fraction")
        mon.seen("unknown")
    mon.note(name=name)
    mon.seen("duration")
    mon.signature("duration", "fixed_step", name)


STAGES = [("recognised", recognised, 4000, 60000), ("not_recognised", not_recognised, 1500, 20000), ("durations", durations, 400, 2000)]
