"""C26 date and timestamp conversions are exact and inverse"""
import calendar
import datetime
import os
import time

from warcio import timeutils as tu

PROP = 'C26'
QUICK, THOROUGH = 80000, 1500000
RULE = ('case = one date (uniform, at boundaries of days, months, leap years, or now), as naive and as aware date of some UTC offset, '
        'in a process of some time zone; every conversion compared with text made from integers and all inverses taken; one '
        'timestamp cut to every length or with out-of-range and non-numeric parts, against digit arithmetic; non-trivial = a date '
        'was compared; distinct by date and zone')
NEED = {'dates': 30000, 'aware': 30000, 'prefixes': 200000, 'clamped': 20000, 'not_numeric': 5000, 'micros': 10000, 'http': 30000,
        'old_formats': 8000, 'seconds': 30000, 'float_seconds': 5000, 'now': 1000, 'zones': 20000, 'long_timestamps': 5000}

NAMED = [z for z in ('Europe/Moscow', 'Asia/Kolkata', 'Pacific/Apia', 'Africa/Monrovia', 'Europe/Dublin', 'Asia/Pyongyang', 'America/St_Johns',
                     'Antarctica/Troll', 'Australia/Lord_Howe') if os.path.exists('/usr/share/zoneinfo/' + z)]
ZONES = NAMED + ['UTC', 'UTC', 'XXX-14', 'XXX+12', 'EST5EDT,M3.2.0,M11.1.0', 'XXX-5:45', 'CET-1CEST,M3.5.0,M10.5.0/3', 'NZST-12NZDT,M9.5.0,M4.1.0/3']
DAYS = ['Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun']
LONG = ['Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday', 'Sunday']
MONTHS = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec']
UTC = datetime.timezone.utc
EPOCH = datetime.datetime(1970, 1, 1)


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def mdays(y, m):
    return 29 if m == 2 and leap(y) else [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]


def days(y, m, d):
    """days since 1970-01-01, by counting"""
    y -= m <= 2
    era = y // 400
    yoe = y - era * 400
    doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5 + d - 1
    return era * 146097 + yoe * 365 + yoe // 4 - yoe // 100 + doy - 719468


def seconds(f):
    y, mo, d, h, mi, s = f
    return days(y, mo, d) * 86400 + h * 3600 + mi * 60 + s


def fields(rng):
    k = rng.random()
    if k < .02:
        # around the epoch
        return rng.choice([(1969, 12, 31, 23, 59, rng.choice([57, 58, 59])), (1970, 1, 1, 0, 0, rng.choice([0, 1, 2]))])
    y = rng.randrange(1000, 3000) if k < .3 else rng.randrange(1900, 2101) if k < .8 else rng.choice(
        [1000, 1899, 1900, 1901, 1969, 1970, 1999, 2000, 2037, 2038, 2100, 2400, 2999, 1600, 1582])
    mo = rng.choice([1, 2, 2, 3, 12, rng.randrange(1, 13), rng.randrange(1, 13)])
    n = mdays(y, mo)
    d = rng.choice([1, n, n - 1, rng.randrange(1, n + 1), rng.randrange(1, n + 1)])
    h = rng.choice([0, 23, 1, 2, 3, rng.randrange(24), rng.randrange(24)])
    mi = rng.choice([0, 59, rng.randrange(60), rng.randrange(60)])
    s = rng.choice([0, 59, rng.randrange(60), rng.randrange(60)])
    return (y, mo, d, h, mi, s)


def http(f):
    return '%s, %02d %s %04d %02d:%02d:%02d GMT' % ((DAYS[(days(*f[:3]) + 3) % 7], f[2], MONTHS[f[1] - 1], f[0]) + f[3:])


def clamp(text, lo, hi):
    if not text.isdigit():
        return hi
    return max(lo, min(int(text), hi))


def complete(s):
    """what a timestamp of digits and junk denotes, by its documentation: each field that is not complete is its last value"""
    y = s[:4] + '2999'[len(s[:4]):]
    y = clamp(y, 1900, 2999)
    part = lambda a, lo, hi: clamp(s[a:a + 2], lo, hi) if len(s) >= a + 2 else hi
    mo = part(4, 1, 12)
    return (y, mo, part(6, 1, mdays(y, mo)), part(8, 0, 23), part(10, 0, 59), part(12, 0, 59))


def case(rng, ctx, idx):
    zone = rng.choice(ZONES) if rng.random() < .6 else None
    if zone:
        ctx.ev('zones')
        os.environ['TZ'] = zone
        time.tzset()
    try:
        case_in(rng, ctx, zone)
    finally:
        if zone:
            del os.environ['TZ']
            time.tzset()


def case_in(rng, ctx, zone):
    f = fields(rng)
    us = rng.choice([0, 0, 1, 999999, 500000, rng.randrange(1000000), 100, 120000, 30000, rng.randrange(100) * 10 ** rng.randrange(5)])
    w = 'time zone %s: %r us %d: ' % (zone, f, us)
    dt = datetime.datetime(*f)
    dtu = dt.replace(microsecond=us)
    iso = '%04d-%02d-%02dT%02d:%02d:%02dZ' % f
    isou = iso[:-1] + ('.%06d' % us if us else '') + 'Z'
    ts = '%04d%02d%02d%02d%02d%02d' % f
    sec = seconds(f)
    ht = http(f)
    ctx.ev('dates')
    ctx.nontrivial(f, us, zone)
    ctx.sample = {'date': iso, 'zone': zone}
    # from a date
    aware = [dtu]
    for _ in range(2):
        off = datetime.timezone(datetime.timedelta(minutes=rng.choice([0, 60, -300, 345, 840, -720, 1439, -1439, rng.randrange(-1439, 1440)])))
        try:
            aware.append(dtu.replace(tzinfo=UTC).astimezone(off))
            ctx.ev('aware')
        except OverflowError:
            pass
    for d in aware:
        ww = w + repr(d.tzinfo)
        keep = d
        ctx.equal(tu.datetime_to_iso_date(d), iso, ww + ': datetime_to_iso_date')
        ctx.equal(tu.datetime_to_iso_date(d, use_micros=True), isou, ww + ': datetime_to_iso_date with microseconds')
        ctx.equal(tu.datetime_to_timestamp(d), ts, ww + ': datetime_to_timestamp')
        ctx.equal(tu.datetime_to_http_date(d), ht, ww + ': datetime_to_http_date')
        ctx.ev('http')
        ctx.ev('micros')
    # to a date
    for tz in (False, True):
        info = UTC if tz else None

        def same(got, want, what):
            ctx.equal((got, got.tzinfo), (want.replace(tzinfo=info), info), w + what + (', tz_aware' if tz else ''))
        kw = {'tz_aware': True} if tz else {} if rng.random() < .5 else {'tz_aware': False}
        same(tu.iso_date_to_datetime(iso, **kw), dt, 'iso_date_to_datetime')
        same(tu.iso_date_to_datetime(isou, **kw), dtu, 'iso_date_to_datetime with fraction')
        frac = rng.choice(['%06d' % us, ('%06d' % us).rstrip('0') or '0', '%06d999' % us, '%06d0' % us])
        same(tu.iso_date_to_datetime(iso[:-1] + '.' + frac + rng.choice(['Z', '']), **kw), dtu, 'iso_date_to_datetime with fraction ' + frac)
        same(tu.iso_date_to_datetime(iso[:-1], **kw), dt, 'iso_date_to_datetime without Z')
        same(tu.http_date_to_datetime(ht, **kw), dt, 'http_date_to_datetime')
        if f[0] >= 1900:
            same(tu.timestamp_to_datetime(ts, **kw), dt, 'timestamp_to_datetime')
    # two-digit years and the other http date formats
    ctx.equal(tu.http_date_to_datetime('%s %s %2d %02d:%02d:%02d %04d' % (DAYS[(days(*f[:3]) + 3) % 7], MONTHS[f[1] - 1], f[2], f[3], f[4], f[5], f[0])),
              dt, w + 'asctime form')
    if 1969 <= f[0] <= 2068:
        ctx.ev('old_formats')
        ctx.equal(tu.http_date_to_datetime('%s, %02d-%s-%02d %02d:%02d:%02d GMT' % (LONG[(days(*f[:3]) + 3) % 7], f[2], MONTHS[f[1] - 1],
                                                                                f[0] % 100, f[3], f[4], f[5])), dt, w + 'rfc850 form')
    # text to text
    ctx.equal(tu.iso_date_to_timestamp(rng.choice([iso, isou, iso[:-1]])), ts, w + 'iso_date_to_timestamp')
    ctx.equal(tu.http_date_to_timestamp(ht), ts, w + 'http_date_to_timestamp')
    ctx.equal(tu.sec_to_timestamp(sec), ts, w + 'sec_to_timestamp')
    ctx.ev('seconds')
    if abs(sec) < 2 ** 34:
        ctx.ev('float_seconds')
        ctx.equal(tu.sec_to_timestamp(sec + rng.choice([.0, .25, .5, .75])), ts, w + 'sec_to_timestamp of a fraction')
    if f[0] >= 1900:
        extra = rng.choice(['', '', '0', '99', '123456'])
        if extra:
            ctx.ev('long_timestamps')
        ctx.equal(tu.timestamp_to_iso_date(ts + extra), iso, w + 'timestamp_to_iso_date')
        ctx.equal(tu.timestamp_to_http_date(ts + extra), ht, w + 'timestamp_to_http_date')
        ctx.equal(tu.timestamp_to_sec(ts + extra), sec, w + 'timestamp_to_sec')

    # partial timestamps, every length
    for n in range(14):
        want = complete(ts[:n])
        if n in (0, 1, 2, 3, 4, 6, 8, 10, 12) and f[0] >= 1900:
            # the last instant of all that start like this
            hi = [int(x) for x in (ts[:n] + '9999' if n < 4 else ts[:n])[:4]]
            ctx.expect(ts <= '%04d%02d%02d%02d%02d%02d' % want or f[0] > 2999, 'harness: completion')
        partial(ctx, rng, ts[:n], want, w)
        ctx.ev('prefixes')
    # fields out of range, and what is no number
    for _ in range(3):
        t = rng.choice(['%04d' % rng.randrange(10000), ts[:4]])
        for lo, hi in ((0, 99),) * 5:
            t += '%02d' % rng.choice([0, 99, 24, 60, 59, 12, 13, 31, 32, 28, 29, 30, rng.randrange(100), rng.randrange(13)])
        t = t[:rng.choice([14, 14, 14, 8, 6, rng.randrange(15)])]
        partial(ctx, rng, t, complete(t), w)
        ctx.ev('clamped')
    if rng.random() < .4:
        t = list(ts[:rng.randrange(1, 15)])
        for _ in range(rng.randrange(1, 4)):
            t[rng.randrange(len(t))] = rng.choice('abcZ:/*?.x')
        t = ''.join(t)
        partial(ctx, rng, t, complete(t), w)
        ctx.ev('not_numeric')
    # padding
    pad = rng.choice([None, tu.PAD_14_DOWN, tu.PAD_14_UP, tu.PAD_6_UP])
    s = ts[:rng.randrange(15)]
    p = pad or '299912'
    ctx.equal(tu.pad_timestamp(s) if pad is None else tu.pad_timestamp(s, pad), s + p[len(s):], w + 'pad_timestamp(%r, %r)' % (s, pad))
    # now
    if rng.random() < .1:
        ctx.ev('now')
        t0 = time.time_ns() // 1000 - 1000000
        a, b = tu.timestamp_now(), tu.timestamp20_now()
        t1 = time.time_ns() // 1000 + 1000000
        text = lambda t: (EPOCH + datetime.timedelta(microseconds=t)).strftime('%Y%m%d%H%M%S%f')
        ctx.expect(len(a) == 14 and text(t0)[:14] <= a <= text(t1)[:14], '%stimestamp_now() %s, it is %s UTC' % (w, a, text(t1)))
        ctx.expect(len(b) == 20 and text(t0) <= b <= text(t1), '%stimestamp20_now() %s, it is %s UTC' % (w, b, text(t1)))


def partial(ctx, rng, t, want, w):
    dt = datetime.datetime(*want)
    k = rng.randrange(5)
    w += 'timestamp %r: ' % t
    if k <= 1:
        ctx.equal(tu.timestamp_to_datetime(t), dt, w + 'timestamp_to_datetime')
    elif k == 2:
        got = tu.timestamp_to_datetime(t, tz_aware=True)
        ctx.equal((got.replace(tzinfo=None), got.tzinfo), (dt, UTC), w + 'timestamp_to_datetime, tz_aware')
    elif k == 3:
        ctx.equal(tu.timestamp_to_sec(t), seconds(want), w + 'timestamp_to_sec')
    else:
        ctx.equal(tu.timestamp_to_iso_date(t), '%04d-%02d-%02dT%02d:%02d:%02dZ' % want, w + 'timestamp_to_iso_date')
