"""C28: calendar dates and timestamps correspond exactly, invalid dates are refused."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, kmodel
from kmodel import EXC, klit, IMIN, IMAX

def leap(y): return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
def mdays(y, m): return [31, 29 if leap(y) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]

def days_from_civil(y, m, d):
    """Days since 1970-01-01 (eras of 400 years, years starting in March)."""
    y -= m <= 2
    era = y // 400
    yoe = y - era * 400
    doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5 + d - 1
    return era * 146097 + yoe * 365 + yoe // 4 - yoe // 100 + doy - 719468

def civil_from_days(z):
    z += 719468
    era = z // 146097
    doe = z - era * 146097
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    m = mp + (3 if mp < 10 else -9)
    return yoe + era * 400 + (m <= 2), m, doy - (153 * mp + 2) // 5 + 1

def fields(ts):
    us = ts % 10**6; s = ts // 10**6
    y, mo, d = civil_from_days(s // 86400)
    return [y, mo, d, s // 3600 % 24, s // 60 % 60, s % 60, us, leap(y), ts]

PRE = r'''
fun ALL(d) { return [d.year, d.month, d.day, d.hour, d.minute, d.second, d.us, d.leap, d.timestamp] }
fun DT(y, mo, d, h, mi, s, u) { return ALL(datetime.datetime(y, mo, d, h, mi, s, u)) }
fun TS(t) { return ALL(datetime.datetime(t)) }
fun DAYS(first, step, n)
{
    const ret = []
    for const i in range(n) {
        const d = datetime.datetime((first + i * step) * 86400000000)
        ret.push(((d.year * 100 + d.month) * 100 + d.day) * (d.leap ? -1 : 1))
    }
    return ret
}
'''
def some_year(rng):
    return rng.choice([1970, 1971, 1972, 1999, 2000, 2001, 2004, 2096, 2099, 2100, 2101, 2104, 2199, 2200, 2299, 2300, 2396, 2399, 2400, 2401, 290307,
                       rng.randrange(1970, 2500), rng.randrange(1970, 290308), rng.randrange(1970, 290308) // 4 * 4, rng.randrange(20, 2903) * 100,
                       rng.randrange(5, 725) * 400])

def check(c):
    b = vlib.build("asan")
    rng = c.subrng("datetime")
    cases = []
    for y, m in [(2021, 2), (2020, 2), (2100, 2), (2000, 2), (2021, 4), (2021, 12)]:
        assert civil_from_days(days_from_civil(y, m, 3)) == (y, m, 3)
    def add(code, exp, kind):
        cases.append((code, exp)); c.case(code); c.stat(kind)
    # dates to timestamps
    for k in range(c.n(1500, 40000)):
        y = some_year(rng); m = rng.randrange(1, 13)
        md = mdays(y, m)
        d = rng.choice([1, 1, md, md, md + 1, 28, 29, 30, 31, rng.randrange(1, md + 1)])
        h, mi, s = rng.choice([0, 23, rng.randrange(24)]), rng.choice([0, 59, rng.randrange(60)]), rng.choice([0, 59, rng.randrange(60)])
        us = rng.choice([0, 999999, rng.randrange(10**6), 1])
        bad = rng.randrange(12)
        if bad == 0: h = rng.choice([24, -1, 25])
        elif bad == 1: mi = rng.choice([60, -1, 61])
        elif bad == 2: s = rng.choice([60, -1, 61])
        elif bad == 3: us = rng.choice([10**6, -1])
        elif bad == 4: m = rng.choice([0, 13, -1])
        elif bad == 5: d = rng.choice([0, -1, 32])
        elif bad == 6: y = rng.choice([1969, 290308, 0, -1])
        a = [y, m, d, h, mi, s, us]
        ok = 1970 <= y <= 290307 and 1 <= m <= 12 and 1 <= d <= mdays(y, m) and 0 <= h <= 23 and 0 <= mi <= 59 and 0 <= s <= 59 and 0 <= us <= 999999
        code = "return DT(%s)" % ", ".join(map(str, a))
        if ok:
            ts = (((days_from_civil(y, m, d) * 24 + h) * 60 + mi) * 60 + s) * 10**6 + us
            add(code, [y, m, d, h, mi, s, us, leap(y), ts], "dates converted")
        else: add(code, EXC, "invalid dates")
    # defaults
    for k in range(c.n(40, 800)):
        y = some_year(rng); m = rng.randrange(1, 13); d = rng.randrange(1, mdays(y, m) + 1); h = rng.randrange(24); mi = rng.randrange(60)
        t = ((days_from_civil(y, m, d) * 24 + h) * 60 + mi) * 60 * 10**6
        add("const d = datetime.datetime(%d, %d, %d, %d, %d)\nreturn [d.timestamp, d.second]" % (y, m, d, h, mi), [t, 0], "dates converted")
        full = {"year": y, "month": m, "day": d, "hour": h, "minute": mi}
        miss = rng.choice(sorted(full))
        add("return datetime.datetime(%s)" % ", ".join("void" if k2 == miss else str(full[k2]) for k2 in full), EXC, "invalid dates")
        add("return datetime.datetime(%d, %d, %d, %d, %d, 0, 0, %d)" % (y, m, d, h, mi, t), EXC, "invalid dates")
    # timestamps to dates
    for k in range(c.n(1500, 40000)):
        r = rng.randrange(6)
        if r == 0:
            y = some_year(rng); t = days_from_civil(y, 1, 1) * 86400 * 10**6 + rng.choice([0, -1, 1, -86400 * 10**6, 59 * 86400 * 10**6, 60 * 86400 * 10**6, 58 * 86400 * 10**6, 60 * 86400 * 10**6 - 1])
        elif r == 1: t = rng.randrange(0, 2**52)
        elif r == 2: t = rng.randrange(0, 2**63)
        elif r == 3: t = -rng.randrange(1, 2**rng.randrange(1, 64))
        elif r == 4:
            y = rng.choice([1969, 1968, 1904, 1901, 1900, 1896, 1800, 1700, 1601, 1600, 1599, 4, 1, 0, -1, -4, -100, -400, rng.randrange(-290307, 1970)])
            t = days_from_civil(y, rng.choice([1, 3, 12]), 1) * 86400 * 10**6 + rng.choice([0, -1, 1, 86399999999])
        else: t = rng.choice([IMAX, IMIN, IMIN + 1, 0, -1, 1, 999999, 10**6, -10**6, -999999, -10**6 - 1])
        t = max(IMIN, min(IMAX, t))
        add("return TS(%s)" % klit(t), fields(t), "timestamps converted")
    # every day of long intervals
    lo, hi = days_from_civil(1890, 1, 1), days_from_civil(2410, 1, 1)
    starts = list(range(lo, hi, 400)); rng.shuffle(starts)
    for st in starts[:c.n(160, len(starts))] + [days_from_civil(some_year(rng), 1, 1) - 200 for _ in range(c.n(40, 400))]:
        exp = []
        for i in range(400):
            y, m, d = civil_from_days(st + i)
            exp.append(((y * 100 + m) * 100 + d) * (-1 if leap(y) else 1))
        add("return DAYS(%d, 1, 400)" % st, exp, "blocks of 400 consecutive days")
    kmodel.run_cases(c, b, cases, batch=150, prelude=PRE, mods=("datetime",), label="datetime", timeout=120)
    # now() advances with the system clock
    import time
    for k in range(3):
        t0 = int(time.time() * 10**6)
        r = vlib.run_script(b, NOW)
        t1 = int(time.time() * 10**6)
        v = r.out.decode("utf-8", "replace").strip()
        c.case(("now", k)); c.stat("readings of the clock")
        if r.rc != 0 or not v.lstrip("-").isdigit() or not t0 - 1 <= int(v) <= t1 + 1:
            c.violation("the time now is %r, not between %d and %d" % (v[:80], t0, t1), {"now.kos": NOW}, key="now")
NOW = "import datetime\nimport io\nio.stdout.print(datetime.now())\n"

if __name__ == "__main__": vlib.main(check, "C28", rule="dates, timestamps, invalid dates and blocks of consecutive days compared with the proleptic Gregorian calendar; non-trivial: distinct conversion",
          assumptions=["timestamps given as floats are not judged"])
