"""C20: time arguments mean what they say.

All combinations of boundary values in every supported form, all short strings
over the alphabet of times, and all one character edits of valid ones, through
the real parsers, compared with a parser written for this check."""
import itertools
import re

import lib

LEVEL = 'exploration'
TECHNIQUE = 'bounded exhaustive enumeration of time texts (boundary products, all short strings, all single edits) on the real parsers against an independent one'
NOTE = ('Not judged: the empty text, offsets with 60-99 minutes, non-ASCII digits in amounts. All strings up to 4 (thorough 5) characters over 19 symbols, '
        'sequences of up to 3 amounts.')

NOW = [(1_700_000_000_123456, 'UTC0'), (1_699_164_000_000001, 'EST5EDT,M3.2.0,M11.1.0'), (1_711_846_799_999999, 'CET-1CEST,M3.5.0,M10.5.0/3')]
D, M2 = r'[0-9]{4}', r'[0-9]{2}'
Z = rf'[-+]{M2}{M2}'
FULL = re.compile(rf'({D})({M2})({M2})T({M2})({M2})({M2})([0-9]{{6}})({Z})')
FORMS = [FULL] + [re.compile(x) for x in (
    rf'({D})', rf'({D})({M2})', rf'({D})-({M2})', rf'({D})({M2})({M2})', rf'({D})-({M2})-({M2})',
    rf'({D})({M2})({M2})T({M2})({M2})({M2})({Z})', rf'({D})-({M2})-({M2})T({M2}):({M2}):({M2})({Z})',
    rf'({D})-({M2})-({M2})T({M2}):({M2}):({M2})\.([0-9]{{6}})({Z})')]
TERM = re.compile(r'([-+]?)([0-9]+)([wdHMS])')
UNITS = {'w': 604800, 'd': 86400, 'H': 3600, 'M': 60, 'S': 1}
UNJUDGED = object()
FIRST = -62135596800 * 10 ** 6                  # year 1
LAST = 253402300800 * 10 ** 6 - 1               # end of year 9999


def days(y, m, d):
    """days since 1970-01-01, None if there is no such day"""
    leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
    lengths = (31, 29 if leap else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)
    if not (1 <= y <= 9999 and 1 <= m <= 12 and 1 <= d <= lengths[m - 1]):
        return None
    p = y - 1
    return p * 365 + p // 4 - p // 100 + p // 400 + sum(lengths[:m - 1]) + d - 1 - 719162


def moment(groups):
    zone = groups[-1] if groups[-1][0] in '+-' else None
    nums = [int(x) for x in groups[:-1 if zone else None]]
    y, m, d, h, mi, s, us = nums + [None, 1, 1, 0, 0, 0, 0][len(nums):]
    off = 0
    if zone:
        oh, om = int(zone[1:3]), int(zone[3:5])
        if om >= 60:
            return UNJUDGED
        off = (oh * 60 + om) * (-1 if zone[0] == '-' else 1)
        if oh > 23:
            return None
    n = days(y, m, d)
    if n is None or h > 23 or mi > 59 or s > 59:
        return None
    return (n * 86400 + h * 3600 + mi * 60 + s - off * 60) * 10 ** 6 + us


def absolute(text, forms=FORMS):
    for f in forms:
        m = f.fullmatch(text)
        if m:
            return moment(m.groups())
    return None


def user(text, now):
    """microseconds since 1970, None for no time, or UNJUDGED"""
    a = absolute(text)
    if a is not None:
        return a
    if not text:
        return UNJUDGED
    pos, total = 0, 0
    while pos < len(text):
        m = TERM.match(text, pos)
        if not m:
            return UNJUDGED if not text.isascii() and text[pos:pos + 2].strip('+-')[:1].isdigit() else None
        n = int(m[2]) if len(m[2]) < 4000 else 10 ** 4000
        total += (-n if m[1] == '-' else n) * UNITS[m[3]] * 10 ** 6
        if abs(total) > 999999999 * 86400 * 10 ** 6:
            # (more than can be represented, though later amounts might make it less)
            return None if len(TERM.findall(text)) == 1 else UNJUDGED
        pos = m.end()
    return now + total if FIRST <= now + total <= LAST else None


def _parse(texts):
    """[(outcome of time_from_user, of parse_iso8601, of time_from_timestamp)]"""
    from datetime import datetime, timedelta, timezone
    from bead.tech import timestamp as t
    epoch = datetime(1970, 1, 1, tzinfo=timezone.utc)
    micro = timedelta(microseconds=1)
    out = []
    for s in texts:
        row = []
        for f in (t.time_from_user, t.parse_iso8601, t.time_from_timestamp):
            try:
                row.append((f(s) - epoch) // micro)
            except ValueError:
                row.append(None)
            except Exception as e:
                row.append(f'{type(e).__name__}: {e}')
        out.append(row)
    return out


def judge(w, case):
    texts, k = case
    now, tz = NOW[k]
    texts = list(texts)
    o = w.fork(_parse, texts, clock=(now * 1000, 0), tz=tz)
    w.check(o.kind == 'ret', f'parsing ends in {o.kind}', 'died', outcome=o)
    for s, (u, i, t) in zip(texts, o.value):
        w.count('evaluations')
        want = user(s, now), absolute(s), absolute(s, [FULL])
        if want[1] is not None:
            w.distinct('nontrivial', s)
        for name, got, exp in zip(('time_from_user', 'parse_iso8601', 'time_from_timestamp'), (u, i, t), want):
            if exp is UNJUDGED:
                w.check(got is None or isinstance(got, int), f'{name}({s[:80]!r}) raises {got}', f'{name}-raises')
                continue
            if exp is not None:
                w.count('accepted')
            w.check(got == exp, f'{name}({s[:80]!r}) is {got} instead of {exp if exp is not None else "ValueError"}', name)
    w.sample({'texts': [s[:60] for s in texts[:3]], 'parsed': o.value[:3]})


YEARS = ['0000', '0001', '0004', '1582', '1900', '1969', '1970', '1999', '2000', '2020', '2023', '2024', '2100', '9999']
MONTHS = ['%02d' % k for k in range(15)] + ['20', '99']
DAYS = ['%02d' % k for k in (0, 1, 9, 10, 27, 28, 29, 30, 31, 32, 40, 99)]
HOURS, MINUTES, SECONDS = ['00', '01', '12', '23', '24', '25', '99'], ['00', '01', '30', '59', '60', '99'], ['00', '01', '30', '59', '60', '61', '99']
MICROS = ['000000', '000001', '100000', '499999', '500000', '999999']
OFFSETS = ['+0000', '-0000', '+0001', '-0001', '+0530', '-0330', '+0059', '-0059', '+1400', '-1200', '+2359', '-2359', '+2400', '-2400', '+9900', '+0100', '-0100']


def boundary():
    dates = list(itertools.product(YEARS, MONTHS, DAYS))
    times = list(itertools.product(HOURS, MINUTES, SECONDS, MICROS, OFFSETS))
    for y, m, d in dates:
        yield from (y, y + m, f'{y}-{m}', y + m + d, f'{y}-{m}-{d}')
    pairs = [(d, t) for d in dates for t in (('00', '00', '00', '000000', '+0000'), ('23', '59', '59', '999999', '-0330'), ('12', '30', '01', '000001', '+1400'))]
    pairs += [(d, t) for d in (('2024', '02', '29'), ('0001', '01', '01'), ('9999', '12', '31'), ('1970', '01', '01')) for t in times]
    for (y, m, d), (h, mi, s, us, z) in pairs:
        yield f'{y}{m}{d}T{h}{mi}{s}{us}{z}'
        yield f'{y}{m}{d}T{h}{mi}{s}{z}'
        yield f'{y}-{m}-{d}T{h}:{mi}:{s}{z}'
        yield f'{y}-{m}-{d}T{h}:{mi}:{s}.{us}{z}'


VALID = ['2024', '202402', '2024-02', '20240229', '2024-02-29', '20240229T123456+0530', '2024-02-29T12:34:56-0330', '2024-02-29T12:34:56.123456+0000',
         '20240229T123456123456+0100', '1w2d3H4M5S', '-1w+2d-3H', '1d', '-0S', '+12M']
EDIT = ['0', '1', '2', '9', '-', '+', ':', 'T', 't', '.', ',', 'w', 'd', 'H', 'M', 'S', 'h', 'm', 's', 'y', 'Z', 'z', ' ', '\t', '\n', '\r', '\0', '/', '_', 'W', 'D',
        '\u0663', '\uff11', '\u2212', '\u00a0', 'x', '(', 'e']


def edits(full):
    yield from VALID
    for v in VALID:
        yield from (v.lower(), v.upper(), v + v, v + 'Z', ' ' + v, v + ' ', v + '\n', v + '\r\n', v + '\0', "'" + v, v + '+0000', 'T' + v)
        for k in range(len(v) + 1):
            yield v[:k]
            yield v[k:]
            yield v[:k] + v[k + 1:]
            for c in EDIT:
                yield v[:k] + c + v[k:]
                if k < len(v):
                    yield v[:k] + c + v[k + 1:]
                    if full:
                        for j in range(k + 1, len(v)):
                            yield v[:k] + c + v[k + 1:j] + v[j + 1:]
                            yield v[:k] + c + v[k + 1:j] + '0' + v[j + 1:]
                            yield v[:k] + v[k + 1:j] + c + v[j:]


def deltas(full):
    amounts = ['0', '1', '7', '10', '59', '60', '365', '0012'] if full else ['0', '1', '10', '0012']
    terms = [s + a + u for s in ('', '+', '-') for a in amounts for u in 'wdHMS']
    yield from terms
    yield from (a + b for a in terms for b in terms)
    small = [s + a + u for s in ('', '+', '-') for a in (('1', '10', '365') if full else ('1',)) for u in 'wdHMS']
    yield from (a + b + c for a in small for b in small for c in small)
    for s in ('', '+', '-'):
        for u in 'wdHMSymhDsW':
            for a in ('99999', '999999999', '1000000000', '9' * 12, '9' * 30, '9' * 400, '9' * 5000, '1.5', '1e3', '1_0', '0x10', '', '-', '+1', ' 1', '3652058', '2000000'):
                yield s + a + u


def short(n):
    alphabet = '0129-+:T.wdHMSmyZ \n'
    for k in range(1, n + 1):
        yield from (''.join(c) for c in itertools.product(alphabet, repeat=k))


def chunks(texts, k, size=6000):
    it = iter(texts)
    while True:
        c = tuple(itertools.islice(it, size))
        if not c:
            return
        yield (c, k)


def main(ctx):
    full = not ctx.quick
    cases = list(chunks(boundary(), 0)) + list(chunks(short(5 if full else 4), 1, 20000))
    for k in range(3):
        cases += list(chunks(dict.fromkeys(edits(full)), k)) + list(chunks(deltas(full), k))
    ctx.pmap(judge, cases, name='texts')
    ctx.coverage['rule'] = 'products of boundary values in all forms, all strings over a 19 symbol alphabet up to a length, all single edits of valid texts, all sequences of amounts'
