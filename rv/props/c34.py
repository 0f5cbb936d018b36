"""C34: bundled datasets."""

import csv
import functools
import gzip
import hashlib
import os
from datetime import date, timedelta

import numpy as np
import pandas as pd

from quantfinlib.datasets import load_equity_indices, load_treasury_rates, load_vix
from rv.gens import coin, pick, size

RES = os.environ.get("QFL_REPO", "/repo") + "/quantfinlib/datasets/resources/"
SETS = {
    "vix": (load_vix, "vix_ohlc.csv.gz", ["OPEN", "HIGH", "LOW", "CLOSE"]),
    "treasury": (load_treasury_rates, "daily_treasury_rates.csv.gz", ["1m", "2m", "3m", "4m", "6m", "1y", "2y", "3y", "5y", "7y", "10y", "20y", "30y"]),
    "equity": (load_equity_indices, "multi_index_close.csv.gz",
               "GSPC IXIC DJI NYA XAX BUK100P RUT VIX GDAXI FCHI STOXX50E N100 BFX IMOEX.ME N225 HSI 000001.SS 399001.SZ AXJO AORD BSESN JKSE NZ50 KS11 TWII GSPTSE BVSP MXX IPSA MERV TA125.TA CASE30 JN0U.JO".split()),
}
HEADERS = {"treasury": ["1 Mo", "2 Mo", "3 Mo", "4 Mo", "6 Mo", "1 Yr", "2 Yr", "3 Yr", "5 Yr", "7 Yr", "10 Yr", "20 Yr", "30 Yr"]}
RULE = "distinct (dataset, position in the history, kind of interference before it) with every date and value compared with the file"
REQUIRED = ["load_vix", "load_treasury", "load_equity", "modified_before", "other_directory", "missing_values", "global_options", "interleaved", "concurrent"]
WORKERS = 4


def digest():
    return {f: (hashlib.sha256(open(RES + f, "rb").read()).hexdigest(), os.stat(RES + f).st_mtime_ns) for f in sorted(os.listdir(RES))}


FILES = digest()


@functools.lru_cache(None)
def table(name):
    """Line by line parser of the bundled file: dates as day numbers, values, NaN where the field is empty."""
    with gzip.open(RES + SETS[name][1], "rt", encoding="utf-8", newline="") as f:
        rows = list(csv.reader(f))
    head = rows[0][1:]
    assert head == HEADERS.get(name, SETS[name][2]), head
    days = np.array([r[0] for r in rows[1:]], dtype="datetime64[D]")
    vals = np.array([[float(v) if v.strip() else np.nan for v in r[1:]] for r in rows[1:]])
    return days, vals


def verify(mon, name, df):
    days, vals = table(name)
    mon.check(type(df) is pd.DataFrame, f"{name}: {type(df).__name__}")
    mon.check(isinstance(df.index, pd.DatetimeIndex) and df.index.tz is None, f"{name}: index {df.index[:3]}")
    mon.check(list(df.columns) == SETS[name][2], f"{name}: columns {list(df.columns)}")
    mon.check(df.shape == vals.shape, f"{name}: {df.shape} instead of {vals.shape} values")
    mon.check((df.index.values.astype("datetime64[ns]") == days.astype("datetime64[ns]")).all(), f"{name}: dates differ from the file")
    mon.check(all(t.kind == "f" for t in df.dtypes), f"{name}: column types {set(df.dtypes)}")
    got = df.to_numpy(dtype=float)
    bad = np.argwhere(~((got == vals) | (np.isnan(got) & np.isnan(vals))))
    mon.check(not len(bad), lambda: f"{name}: {len(bad)} values differ from the file, first at {bad[0]}: {got[tuple(bad[0])]!r} instead of {vals[tuple(bad[0])]!r}")
    mon.seen("missing_values", int(np.isnan(vals).any()))


MODS = ["value", "drop_rows", "rename", "add", "sort", "index", "clear", "index_name", "buffer"]


def modify(rng, df):
    k = pick(rng, MODS)
    i = int(rng.integers(len(df)))
    if k == "value":
        df.iloc[i:, 0] = -1.0
    elif k == "drop_rows":
        df.drop(df.index[: i // 2 + 1], inplace=True)
    elif k == "rename":
        df.columns = [f"x{j}" for j in range(df.shape[1])]
    elif k == "add":
        df["NEW"] = 1.0
    elif k == "sort":
        df.sort_index(ascending=False, inplace=True)
    elif k == "index":
        df.index = range(len(df))
    elif k == "clear":
        df.drop(df.columns, axis=1, inplace=True)
    elif k == "index_name":
        df.index.name = "changed"
    else:
        for j in range(df.shape[1]):
            a = df.iloc[:, j].to_numpy()
            if a.flags.writeable:
                a[:] = 0.0
    return k


def history(mon, rng):
    home = os.getcwd()
    held = []
    last = "fresh"
    opts = pd.get_option("mode.copy_on_write")
    try:
        for step in range(size(rng, 2, 6)):
            name = pick(rng, list(SETS))
            if coin(rng, 0.3):
                d = os.path.join(home, f"d{int(rng.integers(3))}")
                os.makedirs(d, exist_ok=True)
                os.chdir(d if coin(rng) else "/")
                mon.seen("other_directory")
            if coin(rng, 0.2):
                pd.set_option("mode.copy_on_write", coin(rng))
                mon.seen("global_options")
            mon.note(dataset=name, step=step, before=last)
            if coin(rng, 0.15):
                from concurrent.futures import ThreadPoolExecutor

                names = [pick(rng, list(SETS)) for _ in range(4)]
                with ThreadPoolExecutor(4) as ex:
                    got = list(ex.map(lambda m: SETS[m][0](), names))
                for m, df in zip(names, got):
                    verify(mon, m, df)
                mon.check(len({id(g) for g in got}) == 4, "concurrent calls share a result")
                mon.seen("concurrent")
            df = mon.call(SETS[name][0])
            verify(mon, name, df)
            mon.seen("load_" + name)
            mon.seen("modified_before", int(last in MODS))
            mon.signature(name, step, last)
            # results obtained earlier, and not modified since, still hold the data
            for m, other in held:
                mon.check(other is not df, "two calls returned the same object")
                verify(mon, m, other)
                mon.seen("interleaved")
            last = "loaded"
            if coin(rng, 0.65):
                last = modify(rng, df)
            else:
                held.append((name, df))
        mon.check(digest() == FILES, "bundled files changed")
    finally:
        os.chdir(home)
        pd.set_option("mode.copy_on_write", opts)


STAGES = [("histories", history, 40, 600)]
