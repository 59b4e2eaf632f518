"""C16 datetime construction, arithmetic and ISO text are correct in any time zone"""
import copy
import datetime
import os
import re
import time
import zoneinfo

from .. import core
from ..enc import cps, enc_dt, enc_num
from ..gen import rng_for

ZONES = ['UTC', 'America/New_York', 'Europe/London', 'Asia/Kolkata', 'Asia/Kathmandu', 'Australia/Lord_Howe', 'Pacific/Chatham', 'Etc/GMT+12']
MORE = ['America/St_Johns', 'Pacific/Apia', 'Africa/Casablanca', 'Europe/Dublin', 'Asia/Tehran', 'Antarctica/Troll', 'Pacific/Kiritimati', 'America/Sao_Paulo', 'Etc/GMT-14', 'Asia/Yangon', 'Australia/Eucla', 'Europe/Lisbon']
UTC = datetime.timezone.utc
EPOCH = datetime.datetime(1, 1, 1)


def table(zone, naive, days=3):
    """the zone's offsets around a (local or UTC) time: [[day, ms, offset in seconds]], UTC instants"""
    key = zoneinfo.ZoneInfo(zone)

    def offset(u):
        return int(u.replace(tzinfo=UTC).astimezone(key).utcoffset().total_seconds())
    lo = max(naive.replace(microsecond=0, fold=0), EPOCH + datetime.timedelta(days=days + 2)) - datetime.timedelta(days=days)
    hi = min(naive.replace(microsecond=0, fold=0), datetime.datetime(9999, 12, 25)) + datetime.timedelta(days=days)
    res = [[0, 0, offset(lo)]]
    step = datetime.timedelta(hours=6)
    u = lo
    while u < hi:
        v = min(u + step, hi)
        if offset(v) != offset(u):
            # the instant of the change
            a, b = 0, int((v - u).total_seconds())
            while b - a > 1:
                m = (a + b) // 2
                if offset(u + datetime.timedelta(seconds=m)) == offset(u):
                    a = m
                else:
                    b = m
            e = enc_dt(u + datetime.timedelta(seconds=b))
            res.append([e[1], e[2], offset(u + datetime.timedelta(seconds=b))])
            u = u + datetime.timedelta(seconds=b)
        else:
            u = v
    return res


def encode(v):
    if v is None:
        return ['z']
    if isinstance(v, bool):
        return ['x']
    if isinstance(v, (int, float)):
        return enc_num(v)
    if isinstance(v, str):
        return ['s', cps(v)]
    if isinstance(v, datetime.datetime):
        return enc_dt(v) if v.tzinfo is None else ['x']
    return ['x']


PARTS = 'arrayNew(datetimeYear(d), datetimeMonth(d), datetimeDay(d), datetimeHour(d), datetimeMinute(d), datetimeSecond(d), datetimeMillisecond(d))'
MODELS = {}


def run(text, glob):
    from bare_script import execute_script, parse_script
    if text not in MODELS:
        MODELS[text] = parse_script(text)
    try:
        return execute_script(MODELS[text], {'globals': glob})
    except Exception: # pylint: disable=broad-except
        return float('nan')


def parts(d):
    got = run('return ' + PARTS, {'d': d})
    return [encode(x) for x in got] if isinstance(got, list) else []


def seven(d):
    return parts(d) if isinstance(d, datetime.date) else []


def many(text, glob, n):
    got = run(text, glob)
    return [encode(x) for x in got] if isinstance(got, list) and len(got) == n else [['x']] * n


def make(case):
    kind, zone, *rest = case
    if kind == 'new':
        args, = rest
        names = 'abcdefg'[:len(args)]
        glob = dict(zip(names, args))
        d = run('return datetimeNew(' + ', '.join(names) + ')', glob)
        full = list(args) + [0] * (7 - len(args))
        return ['new', [enc_num(x) for x in full], encode(d), seven(d)]
    if kind == 'plus':
        d, n = rest
        s, m, t, r = many('s = d + n\nreturn arrayNew(s, s - d, n + d, d - s)', {'d': d, 'n': n}, 4)
        return ['plus', enc_dt(d), enc_num(n), s, m, t, r]
    if kind == 'iso':
        d, = rest
        t, back, dt, db = many('t = datetimeISOFormat(d)\ndt = datetimeISOFormat(d, true)\nreturn arrayNew(t, datetimeISOParse(t), dt, datetimeISOParse(dt))', {'d': d}, 4)
        return ['iso', table(zone, d), enc_dt(d), t, back, dt, db, parts(d)]
    if kind == 'parse':
        text, = rest
        d = run('return datetimeISOParse(t)', {'t': text})
        m = re.match(r'(\d{4})-(\d\d)-(\d\d)', text, re.ASCII)
        try:
            near = datetime.datetime(*map(int, m.groups())) if m else datetime.datetime(2000, 1, 1)
        except ValueError:
            near = datetime.datetime(2000, 1, 1)
        return ['parse', table(zone, near), cps(text), encode(d), seven(d)]
    if kind == 'aware':
        d, = rest
        u = d.astimezone(UTC).replace(tzinfo=None)
        t, back, s = many("t = datetimeISOFormat(d)\nreturn arrayNew(t, datetimeISOParse(t), '' + d)", {'d': d}, 3)
        return ['aware', table(zone, u), enc_dt(u), parts(d), t, back, s]
    before = datetime.datetime.now(UTC).replace(tzinfo=None)
    t, today, _ = many('n = datetimeNow()\nreturn arrayNew(datetimeISOFormat(n), datetimeISOFormat(datetimeToday(), true), n - datetimeToday())', {}, 3)
    after = datetime.datetime.now(UTC).replace(tzinfo=None)
    return ['now', table(zone, before), enc_dt(before), enc_dt(after), t, today]


def observe(chunk):
    out = []
    try:
        for case in chunk:
            if os.environ.get('TZ') != case[1]:
                os.environ['TZ'] = case[1]
                time.tzset()
            out.append(make(case))
    finally:
        os.environ['TZ'] = 'UTC'
        time.tzset()
    return out


def around(rng, zone):
    """a local time near one of the zone's changes, or anywhere"""
    key = zoneinfo.ZoneInfo(zone)
    r = rng.random()
    if r < 0.6:
        # near a change: scan a year for them
        year = rng.choice([2024, 2024, 2011, 1999, 1986, 1975, 1950, 2037, 2038, 2050, 2100, 2400, 5000, 8999, rng.randrange(1920, 2200)])
        u = datetime.datetime(year, 1, 1)
        changes = []
        prev = None
        for k in range(0, 366 * 2):
            o = (u + datetime.timedelta(hours=12 * k)).replace(tzinfo=UTC).astimezone(key).utcoffset()
            if prev is not None and o != prev:
                changes.append(u + datetime.timedelta(hours=12 * k))
            prev = o
        if changes:
            base = rng.choice(changes) + (prev or datetime.timedelta(0)) - datetime.timedelta(hours=12)
            return (base + datetime.timedelta(minutes=rng.choice([15, 1, 30, 60]) * rng.randrange(0, 80), milliseconds=rng.choice([0, 0, 1, 999, 500, 10, 59999]))).replace(second=rng.choice([0, 0, 59, 30]))
    year = rng.choice([100, 101, 400, 999, 1000, 1582, 1752, 1883, 1900, 1969, 1970, 1999, 2000, 2023, 2024, 2100, 3000, 8999, 9000, rng.randrange(100, 9001), rng.randrange(1900, 2100)])
    d = datetime.datetime(year, 1, 1) + datetime.timedelta(days=rng.choice([0, 58, 59, 60, 364, 365, rng.randrange(366)]))
    return d.replace(hour=rng.choice([0, 23, rng.randrange(24)]), minute=rng.choice([0, 59, rng.randrange(60)]), second=rng.choice([0, 59, rng.randrange(60)]),
                     microsecond=1000 * rng.choice([0, 0, 1, 10, 100, 999, rng.randrange(1000)]))


def components(rng):
    year = rng.choice([100, 400, 1000, 1900, 1999, 2000, 2023, 2024, 2100, 9000, rng.randrange(100, 9001)])
    wild = rng.random()
    month = rng.choice([1, 2, 3, 12, 0, 13, -1, 14, rng.randrange(-30, 41), rng.randrange(1, 13)])
    day = rng.choice([1, 28, 29, 30, 31, 32, 0, -1, -27, -30, 59, 60, 61, 365, 366, 367, -365, -366, 10000, -10000, rng.randrange(-10000, 10001), rng.randrange(-400, 400)])
    args = [year, month, day]
    for lim in (24, 60, 60, 1000):
        if wild < 0.3:
            args.append(rng.randrange(lim))
        else:
            args.append(rng.choice([0, lim - 1, lim, -1, lim + 1, -lim, -lim - 1, 2 * lim, 5000, -5000, rng.randrange(-5000, 5001), rng.randrange(-3 * lim, 3 * lim)]))
    args = args[:rng.choice([3, 3, 4, 5, 6, 7, 7, 7, 7])]
    if rng.random() < 0.03:
        args[rng.randrange(len(args))] = rng.choice([10 ** 9, -10 ** 9, 10 ** 6, 86400000 * 365, -10 ** 12, 10 ** 15, 1e300])
    return [float(a) if rng.random() < 0.7 else a for a in args]


TEXTS = ['', '2024', '2024-02', '2024-02-30', '2023-02-29', '2024-02-29', '1900-02-29', '2000-02-29', '2024-13-01', '2024-00-10', '2024-01-00', '2024-04-31', '0000-01-01', '0001-01-01', '9999-12-31', '0099-12-31', '2024-1-5', '24-01-05', '2024/01/05',
         '2024-01-05 ', ' 2024-01-05', '2024-01-05\n', '2024-01-05Z', '20240105', '2024-01-05T', '2024-01-05T10:00', '2024-01-05T10:00:00', '2024-01-05T10:00:00Z', '2024-01-05T10:00:00z', '2024-01-05t10:00:00Z', '2024-01-05 10:00:00Z',
         '2024-01-05T24:00:00Z', '2024-01-05T25:00:00Z', '2024-01-05T10:60:00Z', '2024-01-05T10:00:60Z', '2024-01-05T10:00:61Z', '2024-01-05T10:00:00.Z', '2024-01-05T10:00:00.1Z', '2024-01-05T10:00:00.12Z', '2024-01-05T10:00:00.123Z',
         '2024-01-05T10:00:00.1234Z', '2024-01-05T10:00:00.123456Z', '2024-01-05T10:00:00.1234567Z', '2024-01-05T10:00:00,123Z', '2024-01-05T10:00:00+00:00', '2024-01-05T10:00:00-00:00', '2024-01-05T10:00:00+05:45', '2024-01-05T10:00:00-12:00',
         '2024-01-05T10:00:00+14:00', '2024-01-05T10:00:00+23:59', '2024-01-05T10:00:00-23:59', '2024-01-05T10:00:00+24:00', '2024-01-05T10:00:00+99:00', '2024-01-05T10:00:00+05:60', '2024-01-05T10:00:00+05:99', '2024-01-05T10:00:00+0545', '2024-01-05T10:00:00+05',
         '2024-01-05T10:00:00+5:45', '2024-01-05T10:00:00+05:45:30', '2024-01-05T10:00:00 Z', '2024-01-05T10:00:00ZZ', '2024-01-05T10:00:00Z\n', '2024-01-05T10:00:00+05:45\n', '0001-01-01T00:00:00+14:00', '0001-01-01T00:00:00Z', '0001-01-01T00:00:00-14:00',
         '9999-12-31T23:59:59Z', '9999-12-31T23:59:59-14:00', '9999-12-31T23:59:59.999+14:00', '2024-02-30T10:00:00Z', '2024-13-05T10:00:00Z', '2024-00-05T10:00:00+01:00', 'abc', 'now', '2024-W01-1', '2024-001', '1704448800', '2024-01-05T1:00:00Z',
         '2024-01-05T10:00:00.123+05:45', '2024-01-05T10:00:00.999999+05:45', '2024-01-05T10:00:00\u221205:00', '\u0662\u0660\u0662\u0664-01-05', '2024-01-0\u0665', '2024\u201001\u201005', '2024-01-05T10:00:00.\u0661Z', '+2024-01-05', '-2024-01-05', '12024-01-05',
         '2024-01-05T10:00:00.000Z', '2024-01-05T23:59:59.9999Z', '2024-01-05T10:00:00.0005Z', '1969-12-31T23:59:59.999Z', '0000-00-00', '2024-06-31T00:00:00Z', '2024-01-05T-1:00:00Z', '2024-01-05T10:-1:00Z', '2024--1-05', '2024-01-05T10:00:00+-5:00', '2024-01-5T10:00:00Z']


def mutated(rng, t):
    i = rng.randrange(len(t) + 1)
    r = rng.random()
    if r < 0.5 and i < len(t):
        return t[:i] + rng.choice('0123456789-:.TZ+ ') + t[i + 1:]
    if r < 0.75:
        return t[:i] + rng.choice('0123456789-:.TZ+ xe\t\n\u0660') + t[i:]
    return t[:i] + t[i + 1:]


def cases():
    deep = core.TIER == 'thorough'
    res = []
    zones = ZONES + MORE
    for zone in zones:
        n = (4 if zone in ZONES else 1)
        rng = rng_for(core.SEED, 'C16', zone)
        part = []
        for t in TEXTS:
            if zone in ZONES or rng.random() < 0.2:
                part.append(('parse', zone, t))
        for _ in range((1500 if deep else 90) * n):
            part.append(('iso', zone, around(rng, zone)))
        for _ in range((1200 if deep else 70) * n):
            d = around(rng, zone)
            off = rng.choice(['Z', 'Z', '+00:00', '-05:00', '+05:45', '+10:30', '-12:00', '+14:00', f'{rng.choice("+-")}{rng.randrange(24):02d}:{rng.randrange(60):02d}'])
            frac = rng.choice(['', '', f'.{d.microsecond // 1000:03d}', f'.{rng.randrange(10 ** 6):06d}', f'.{rng.randrange(10)}', f'.{rng.randrange(10 ** 4):04d}'])
            t = f'{d.year:04d}-{d.month:02d}-{d.day:02d}T{d.hour:02d}:{d.minute:02d}:{d.second:02d}{frac}{off}'
            if rng.random() < 0.15:
                t = t[:10]
            part.append(('parse', zone, mutated(rng, t) if rng.random() < 0.35 else t))
        for _ in range((600 if deep else 40) * n):
            d = around(rng, zone)
            n_ms = rng.choice([1, -1, 0, 1000, 86400000, -86400000, 3600000, 2 ** 31, 2 ** 53 // 10 ** 4, rng.randrange(-10 ** 12, 10 ** 12), rng.randrange(-10 ** 6, 10 ** 6), 10 ** 12, -10 ** 12, 86399999, 31536000000, 123456789012])
            part.append(('plus', zone, d, float(n_ms) if rng.random() < 0.7 else n_ms))
        for _ in range((600 if deep else 40) * n):
            part.append(('new', zone, components(rng)))
        for _ in range((400 if deep else 20) * n):
            d = around(rng, zone)
            tz = rng.choice([UTC, datetime.timezone(datetime.timedelta(minutes=rng.choice([-720, -300, 330, 345, 840, rng.randrange(-1400, 1400)]))), zoneinfo.ZoneInfo(rng.choice(ZONES))])
            part.append(('aware', zone, d.replace(tzinfo=tz)))
        part += [('now', zone)] * 3
        res.append(part)
    # the calendar itself
    rng = rng_for(core.SEED, 'C16', 'calendar')
    part = []
    for year in (1900, 2000, 2023, 2024, 100, 9000):
        for month in range(-13, 27):
            part.append(('new', 'UTC', [float(year), float(month), float(rng.choice([1, 28, 29, 30, 31, 0, -1]))]))
        for day in list(range(-70, 70)) + list(range(355, 370)):
            part.append(('new', 'UTC', [float(year), float(rng.choice([1, 2, 3, 12])), float(day)]))
    for _ in range(20000 if deep else 2000):
        part.append(('new', 'UTC', components(rng)))
    res.append(part)
    return res


def corrupt(rng, rec):
    rec = copy.deepcopy(rec)
    kind = rec[0]

    def wrong(d):
        return ['d', d[1] + 1, d[2], d[3]] if d[0] == 'd' and rng.random() < 0.5 else ['d', d[1], (d[2] + 3600000) % 86400000, d[3]] if d[0] == 'd' else ['x']
    if kind == 'new':
        if rng.random() < 0.5 and rec[3]:
            k = rng.randrange(7)
            rec[3][k] = ['n', rec[3][k][1] + 1 if rec[3][k][0] == 'n' else 7]
        else:
            rec[2] = wrong(rec[2])
    elif kind == 'plus':
        if rng.random() < 0.5:
            rec[3] = ['x']
        else:
            rec[5] = ['x']
    elif kind == 'iso':
        k = rng.choice([5, 6, 7])
        if k == 7:
            rec[7] = rec[7][:6] + [['n', -5]]
        else:
            rec[k] = wrong(rec[k]) if k == 6 else ['s', rec[k][1][:-1]]
    elif kind == 'parse':
        rec[3] = ['x'] if rec[3][0] == 'z' else wrong(rec[3])
    elif kind == 'aware':
        rec[3] = rec[3][:6]
    else:
        rec[4] = ['s', cps('1999-01-01T00:00:00+00:00')]
    return rec


def check(rep):
    deep = core.TIER == 'thorough'
    core.require_model('MC_Calendar', 'MC_Calendar_deep.cfg' if deep else None)
    core.require_counterexample('MC_Calendar', 'MC_Calendar_leap.cfg')
    core.require_model('MC_Zone')
    core.require_counterexample('MC_Zone', 'MC_Zone_hours.cfg')
    todo = []
    chunks = []
    for part in cases():
        for i in range(0, len(part), 60):
            chunks.append(part[i:i + 60])
    records = []
    for c, (status, val) in zip(chunks, core.pmap(observe, chunks, soft=30.0)):
        if status != 'ok':
            for case, (s1, v1) in zip(c, core.pmap(observe, [[x] for x in c], soft=6.0)):
                if s1 == 'ok':
                    records += v1
                    todo.append(case)
                else:
                    rep.violation(f'no answer ({s1}): {case!r} {v1}'[:500], {'case': repr(case)})
            continue
        records += val
        todo += c
    rng = rng_for(core.SEED, 'C16', 'canary')
    canaries = [(i, corrupt(rng, records[i])) for i in rng.sample(range(len(records)), 150)]
    verdicts = core.validate('Trace_Datetime', records + [c for _, c in canaries], weight=lambda r: 30)
    for case, (clause, extra), rec in zip(todo, verdicts, records):
        rep.count(case[0])
        if 'gap' in extra or 'fold' in extra:
            rep.count('in_gap' if 'gap' in extra else 'in_fold')
        if clause:
            rep.violation(f'{clause}: TZ={case[1]} {case[2:]!r}'[:500], {'clause': clause, 'zone': case[1], 'case': repr(case[2:]), 'observed': repr(rec)})
    for (i, rec), (clause, _) in zip(canaries, verdicts[len(records):]):
        # a local time that does not exist is open, and so are results beyond the calendar
        rep.canaries += 1
        if not clause:
            if rec[0] in ('plus', 'aware') and records[i][3] in (['z'], []) or rec[0] == 'new' and records[i][2] == ['z']:
                rep.canaries -= 1
                continue
            rep.canaries_missed.append((todo[i], rec))
    rep.coverage['zones'] = len(ZONES) + len(MORE)
    rep.samples = [repr(todo[i]) for i in rng.sample(range(len(todo)), 8)]
