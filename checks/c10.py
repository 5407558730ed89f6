"""C10: date conditions.  The current time is supplied, so that every day can be today."""
import calendar, datetime

from harness import core, gen
from harness.hist import run_script

ZONES = ["UTC", "UTC", "UTC", "EST5EDT,M3.2.0,M11.1.0", "AEST-10AEDT,M10.1.0,M4.1.0/3", "IST-5:30", "XXX12", "YYY-13"]
MON = ["jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec"]


def spell_year(r, y):
    if y in (2069, 2070) and r.random() < 0.5:
        return "%02d" % (y % 100)
    if r.random() < 0.3 and (1970 <= y <= 1999 or 2032 <= y <= 2069 or y in range(2000, 2010)):
        s = "%02d" % (y % 100)
        # one or two digits are a day of the month if they can be
        if s[0] == "0" or int(s) > 31:
            return s
    return "%04d" % y


def mon(r, m):
    return r.choice([MON[m - 1], MON[m - 1], MON[m - 1].upper(), MON[m - 1].capitalize()])


def expr(r, today, focus):
    """One date expression near the focus date; month names are spelled lower case only where needed."""
    y, m, d = focus.year, focus.month, focus.day
    k = r.randint(0, 12)
    if k == 0:
        return "%04d%02d%02d" % (y, m, d)
    if k == 1 and (1970 <= y <= 2070):
        return "%02d%02d%02d" % (y % 100, m, d)
    if k == 2:
        return "%d%s%04d" % (d, mon(r, m), y)
    if k == 3:
        return "%04d%s%d" % (y, mon(r, m), d)
    if k == 4:
        return "%s%s" % (mon(r, m), spell_year(r, y))
    if k == 5:
        return "%s%s" % (spell_year(r, y), mon(r, m))
    if k == 6:
        return spell_year(r, y)
    if k == 7:
        return mon(r, m)
    if k == 8:
        return "%d%s" % (min(d, 28), mon(r, m))
    if k == 9:
        return "%s%d" % (mon(r, m), min(d, 28))
    if k == 10:
        return str(r.randint(1, 28))
    days = (today - focus).days
    if days >= 0:
        return r.choice(["%dd" % days, "%dw" % (days // 7), "%dm" % (days // 30), "%dy" % (days // 365)])
    return "%04d%02d%02d" % (y, m, d)


def scaled(s):
    return s[-1] in "dwmy" and s[:-1].isdigit()


def rdate(r, lo=1971, hi=2100):
    y = r.randint(lo, hi) if r.random() < 0.75 else min(hi, max(lo, r.choice([1972, 1999, 2000, 2000, 2001, 2037, 2038, 2068, 2069, 2070, 2096, 2100])))
    m = r.choice([1, 2, 12, r.randint(1, 12)])
    n = calendar.monthrange(y, m)[1]
    return datetime.date(y, m, r.choice([1, n, r.randint(1, n)]))


def near(r, d):
    k = r.random()
    try:
        if k < 0.5:
            return d + datetime.timedelta(days=r.choice([-1, 0, 0, 1, 2, -2, 7, -7, 30, -30, 365, -365]))
        if k < 0.7:
            return d.replace(day=1) + datetime.timedelta(days=r.choice([-1, 0]))
        if k < 0.8:
            return datetime.date(d.year, r.choice([1, 12]), r.choice([1, 31]))
        return d + datetime.timedelta(days=r.randint(-800, 800))
    except (ValueError, OverflowError):
        return d


def scenario(r):
    today = rdate(r, 1975, 2095)
    anchors = [near(r, today) for _ in range(2)] + [rdate(r)]
    if r.random() < 0.12:
        m = r.choice([2, 2, r.randint(1, 12)])
        anchors = [datetime.date(y, m, r.choice([1, calendar.monthrange(y, m)[1]])) for y in r.choice([[2000], [2000, 1996], [2069, 2070], [2100]])]
    lim = (datetime.date(1971, 1, 2), datetime.date(2104, 1, 1))
    ops = [["maildir", "a"]]
    days = []
    for i in range(8):
        d = near(r, r.choice(anchors + [today]))
        d = min(max(d, lim[0]), lim[1])
        days.append(d)
        ops.append(["put", "a/cur/%d.x:2,S" % i, "file", "Subject: s\nDate: %s\n\nb\n" % gen.date_header(r, d.year, d.month, d.day), 1000000000 + i])
    ops.append(["index"])
    for _ in range(20):
        f = near(r, r.choice(days + anchors))
        f = min(max(f, lim[0]), lim[1])
        k = r.random()
        a = expr(r, today, f)
        if k < 0.35:
            if scaled(a):
                a += "-"
            q = a
        elif k < 0.5:
            q = a + "-"
        elif k < 0.6:
            q = "-" + a
        else:
            g = near(r, f)
            g = min(max(g, lim[0]), lim[1])
            q = a + "-" + expr(r, today, g)
        ops.append(["search", ["d:" + q] + (["s:s"] if r.random() < 0.1 else [])])
    tz = r.choice(ZONES)
    return {"rc": {"maildir": "a"}, "ops": ops, "hash_key": r.randint(0, 2**31 - 1), "tz": tz,
            "today": [today.year, today.month, today.day], "hour": r.choice([1, 11, 12, 22]) if tz == "UTC" else 12}


def runner(b, shim):
    def run(s, d):
        import os, time
        os.environ["TZ"] = s["tz"]
        time.tzset()
        now = int(time.mktime((s["today"][0], s["today"][1], s["today"][2], s["hour"], 30, 0, 0, 0, -1)))
        s = dict(s, env={"TZ": s["tz"], "LD_PRELOAD": shim, "FAKE_NOW": str(now)})
        return run_script(s, d, b)
    return run


def body(ctx):
    b = ctx.binary()
    shim = ctx.shim("faketime")
    r = ctx.rng("dates")
    scns = [scenario(r) for _ in range(ctx.n(600, 8000))]
    ctx.conform(runner(b, shim), scns, "TMairix", "TMairix.cfg", label="dates")


if __name__ == "__main__":
    core.main("C10", body)
