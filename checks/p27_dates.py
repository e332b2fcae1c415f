"""Every day of 1970-2100 at every boundary instant, in several time zones."""
# PATCH_DATES = True
import datetime as _dt
import time as _time

import pythagoras as pth
from pythagoras import current_date_gmt_string

from mc import boot
from mc.boot import env
from mc.core import expect, h

META = dict(level="model_checking",
            rule="one state = one instant; the text is compared with a reference made from a calendar computed "
                 "by counting days",
            bounds="every day 1970-01-01..2100-12-31 at 00:00:00, 23:59:59.999999 UTC (quick: one instant in each "
                   "half, thorough: 6), local zones UTC-12..UTC+14",
            assumptions=["the C locale's month abbreviations"])

MONTHS = "Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec".split()


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def year_case(case):
    y, instants, zones = case
    real = _dt.datetime, _time.gmtime, _time.localtime, _time.strftime
    n = 0
    days_before = sum(366 if leap(k) else 365 for k in range(1970, y))
    import os
    try:
        _dt.datetime = boot._DateTime
        _time.gmtime = lambda *a: real[1](*(a or (env.now,)))
        _time.localtime = lambda *a: real[2](*(a or (env.now,)))
        _time.strftime = lambda f, *a: real[3](f, *(a or (_time.localtime(),)))
        for zone in zones:
            os.environ["TZ"] = zone
            _time.tzset()
            d = days_before
            for m in range(12):
                length = [31, 29 if leap(y) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m]
                for day in range(1, length + 1):
                    for sec in instants:
                        env.now = d * 86400 + sec
                        env.date = boot._dt_real.fromtimestamp(0, _dt.timezone.utc) + _dt.timedelta(
                            days=d, seconds=sec)
                        want = f"{y:04d}_{m + 1:02d}{MONTHS[m]}_{day:02d}_utc"
                        got = current_date_gmt_string()
                        expect(got == want, "wrong-date-string", lambda: f"{env.date} TZ={zone}: {got} != {want}")
                        n += 1
                    d += 1
    finally:
        _dt.datetime, _time.gmtime, _time.localtime, _time.strftime = real
        os.environ["TZ"] = "UTC"
        _time.tzset()
        env.reset()
    return dict(states=n, transitions=n, sigs=[h(case)])


def run(ctx):
    ins = [0, 86399.999999] if ctx.quick else [0, 1, 43199.5, 43200, 86399, 86399.999999]
    zones = ["UTC", "XXX-14", "YYY+12"] if ctx.quick else ["UTC", "XXX-14", "YYY+12", "ZZZ+5:30", "EST5EDT"]
    ctx.run_cases(year_case, [[y, ins, zones] for y in range(1970, 2101)])


def replay(case):
    return year_case(case)
