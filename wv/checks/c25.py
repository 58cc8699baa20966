"""C25 built records carry the mandatory headers, consistent with each other"""
import datetime
import io
import os
import random
import re
import time

from wv import gen, refwarc, writing
from wv.common import quiet
from warcio.archiveiterator import ArchiveIterator
from warcio.recordbuilder import RecordBuilder
from warcio.statusandheaders import StatusAndHeaders
from warcio.warcwriter import WARCWriter, BufferWARCWriter

PROP = 'C25'
QUICK, THOROUGH = 48000, 700000
RULE = ('case = several records built with random combinations of arguments by a builder or writer of any version, in one of several '
        'time zones; every header of every record is compared with the arguments, arguments with their copies, and the records '
        'are written (alone or as pair) and parsed back; non-trivial = a record was checked; distinct by built headers')
NEED = {'records': 40000, 'ids': 30000, 'dates': 20000, 'dates_micros': 4000, 'given_ids': 2000, 'given_dates': 2000, 'given_case': 3000,
        'uri_conflicts': 1000, 'warcinfos': 4000, 'revisits': 4000, 'pairs': 2000, 'shared_args': 5000, 'written': 12000, 'forked_ids': 1000, 'old_builders': 1000, 'seeded': 500,
        'content_types': 10000, 'zones': 4000}

ID = re.compile(r'^<urn:uuid:[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}>$')
DATE = re.compile(r'^\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d(\.\d{6})?Z$')
VERSIONS = [(None, 'WARC/1.0'), ('', 'WARC/1.0'), ('1.0', 'WARC/1.0'), ('WARC/1.0', 'WARC/1.0'), (1.0, 'WARC/1.0'), ('1.1', 'WARC/1.1'),
            ('WARC/1.1', 'WARC/1.1'), (1.1, 'WARC/1.1'), ('0.18', 'WARC/0.18')]
ZONES = ['UTC', 'XXX-14', 'XXX+12', 'EST5EDT,M3.2.0,M11.1.0', 'XXX-5:45']
PROFILE = 'http://netpreserve.org/warc/%s/revisit/identical-payload-digest'


def setup(ctx):
    ctx.state['ids'] = set()
    # used again and again while the check runs
    ctx.state['builders'] = [(RecordBuilder(warc_version=a), v) for a, v in VERSIONS]


def utcnow():
    # whole microseconds, so that it compares with what a date can say
    t = time.time_ns() // 1000
    return datetime.datetime(1970, 1, 1) + datetime.timedelta(microseconds=t)


def get(headers, name):
    return [v for n, v in headers if n.lower() == name.lower()]


def one(ctx, headers, name, what):
    v = get(headers, name)
    ctx.expect(len(v) == 1, '%s: header %s appears %d times' % (what, name, len(v)), headers=headers)
    return v[0]


def check_id(ctx, v, what):
    ctx.expect(bool(ID.match(v)), '%s: record id %r' % (what, v))
    ctx.expect(v not in ctx.state['ids'], '%s: record id %s was used before' % (what, v))
    ctx.state['ids'].add(v)
    ctx.ev('ids')


def check_date(ctx, v, version, t0, t1, what):
    m = DATE.match(v)
    ctx.expect(bool(m), '%s: date %r' % (what, v))
    if m.group(1):
        ctx.expect(version == 'WARC/1.1', '%s: date %r with a fraction in a record of %s' % (what, v, version))
        t = datetime.datetime.strptime(v, '%Y-%m-%dT%H:%M:%S.%fZ')
        ctx.ev('dates_micros')
    else:
        t = datetime.datetime.strptime(v, '%Y-%m-%dT%H:%M:%SZ')
        if version != 'WARC/1.1' or t0.microsecond > 100000:
            t0 = t0.replace(microsecond=0)
    ctx.expect(t0 - datetime.timedelta(milliseconds=50) <= t <= t1 + datetime.timedelta(milliseconds=50),
               '%s: date %s of a record built between %s and %s UTC' % (what, v, t0, t1))
    ctx.ev('dates')


def dict_args(rng, ctx):
    """-> headers given by the caller as a dict"""
    out = writing.extra_headers(rng)
    if rng.random() < .15:
        ctx.ev('given_dates')
        out.append((gen.recase(rng, 'WARC-Date'), gen.warc_date(rng, rng.random() < .5)))
    if rng.random() < .15:
        ctx.ev('given_ids')
        out.append((gen.recase(rng, 'WARC-Record-ID'), gen.uuid(rng)))
    if rng.random() < .1:
        out.append((gen.recase(rng, 'WARC-Target-URI'), gen.http_url(rng)))
    if rng.random() < .1:
        out.append((gen.recase(rng, 'WARC-Type'), 'something'))
    if rng.random() < .1:
        out.append((gen.recase(rng, 'Content-Type'), 'text/x-given'))
    if rng.random() < .1:
        out.append((gen.recase(rng, 'WARC-Payload-Digest'), writing.fake_digest(rng)))
    if any(n != w and n.lower() == w.lower() for n, _ in out for w in ('WARC-Date', 'WARC-Record-ID', 'WARC-Target-URI', 'WARC-Type', 'Content-Type')):
        ctx.ev('given_case')
    rng.shuffle(out)
    return out


def check(ctx, rec, version, rtype, uri, given, t0, t1, what, http, ctype=None, added=()):
    """the headers of a record just built"""
    h = list(rec.rec_headers.headers)
    g = {n.lower(): (n, v) for n, v in given}
    ctx.equal(rec.format, 'warc', what + ': format')
    ctx.equal(rec.rec_type, rtype, what + ': rec_type')
    ctx.equal(rec.rec_headers.protocol, version, what + ': version')
    ctx.equal(one(ctx, h, 'WARC-Type', what), rtype, what + ': WARC-Type')
    v = one(ctx, h, 'WARC-Record-ID', what)
    if 'warc-record-id' in g:
        ctx.equal(v, g['warc-record-id'][1], what + ': record id given')
    else:
        check_id(ctx, v, what)
    v = one(ctx, h, 'WARC-Date', what)
    if 'warc-date' in g:
        ctx.equal(v, g['warc-date'][1], what + ': date given')
    else:
        check_date(ctx, v, version, t0, t1, what)
    if not uri and 'warc-target-uri' in g:
        uri = g['warc-target-uri'][1]
    elif uri and 'warc-target-uri' in g:
        ctx.ev('uri_conflicts')
    if uri:
        ctx.equal(one(ctx, h, 'WARC-Target-URI', what), uri, what + ': WARC-Target-URI')
    else:
        ctx.equal(get(h, 'WARC-Target-URI'), [], what + ': WARC-Target-URI')
    # everything given, once, with its value, in the order given; nothing else but what is the builder's to add
    special = ('warc-type', 'warc-target-uri')
    want = [(n, v) for n, v in given if n.lower() not in special]
    names = {n.lower() for n, _ in given}
    got = [(n, v) for n, v in h if n.lower() in names and n.lower() not in special]
    ctx.equal(got, want, what + ': headers given by the caller')
    for name, v in added:
        ctx.equal(one(ctx, h, name, what), v, what + ': ' + name)
    own = {'warc-type', 'warc-record-id', 'warc-date', 'warc-target-uri', 'warc-payload-digest', 'content-type', 'content-length',
           'warc-block-digest'} | {n.lower() for n, _ in added}
    for n, v in h:
        ctx.expect(n.lower() in names or n.lower() in own, '%s: header %s: %s nobody asked for' % (what, n, v), headers=h)
    ctx.equal(rec.content_type, ctype or (g['content-type'][1] if 'content-type' in g else None) or
              writing.DEFAULT_CT.get(rtype, 'application/warc-record'), what + ': content type')
    ctx.ev('content_types')
    if http is None:
        ctx.expect(rec.http_headers is None, what + ': has http headers')
    else:
        ctx.equal((rec.http_headers.protocol, rec.http_headers.statusline, list(rec.http_headers.headers)), http, what + ': http headers')
    ctx.ev('records')
    ctx.nontrivial(rtype, h[:6], what)


def build_one(rng, ctx, b, version, shared):
    """-> (record, expectation of body, description)"""
    kind = rng.choice(['record', 'record', 'record', 'warcinfo', 'revisit', 'headers'])
    given = shared['dict'] if shared and rng.random() < .5 else dict(dict_args(rng, ctx))
    if shared and given is shared['dict']:
        ctx.ev('shared_args')
        ctx.state['ids'] -= set(get(given.items(), 'WARC-Record-ID'))
    keep = dict(given)
    order = list(given)
    t0 = utcnow()
    if kind == 'warcinfo':
        ctx.ev('warcinfos')
        info = {}
        for _ in range(rng.choice([0, 1, 3, 6])):
            info[rng.choice(['software', 'format', 'isPartOf', gen.token(rng), '\u00e9'])] = rng.choice([gen.value(rng), '', ' ', '\t', 12, None, True, 0, 1.5, 'a: b'])
        fn = rng.choice([None, '', 'a.warc.gz', '\u00e9 b.warc', 'x' * 300])
        ikeep, iorder = dict(info), list(info)
        rec = b.create_warcinfo_record(fn, info)
        t1 = utcnow()
        ctx.equal((info, list(info)), (ikeep, iorder), 'dict given to create_warcinfo_record')
        check(ctx, rec, version, 'warcinfo', None, [], t0, t1, 'warcinfo', None, added=[('WARC-Filename', fn)] if fn else [])
        body = ''.join('%s: %s\r\n' % (n, v) for n, v in ikeep.items() if v).encode('utf-8')
        ctx.equal(rec.length, len(body), 'warcinfo: length')
        return rec, body, 'warcinfo'
    http = obj = None
    rtype = rng.choice(gen.RTYPES[1:])
    uri = rng.choice([gen.http_url, gen.other_url])(rng)
    if kind == 'revisit':
        ctx.ev('revisits')
        given.pop([n for n in given if n.lower() == 'warc-payload-digest'][0], None) if any(n.lower() == 'warc-payload-digest' for n in given) else None
        keep = dict(given)
        order = list(given)
        kw = {}
        if rng.random() < .6:
            obj, http = writing.http_object(rng, 'revisit')
            kw['http_headers'] = obj
        if given or rng.random() < .5:
            kw['warc_headers_dict'] = given
        dig = rng.choice([refwarc.digest(gen.randbytes(rng, 4), rng.choice(['sha1', 'md5'])), 'sha1:B6QJ6BNJ3R4B23XXMRKZKHLPGJY2VE4O', 'x'])
        ref, date = rng.choice([gen.http_url, gen.other_url])(rng), gen.warc_date(rng, rng.random() < .3)
        if rng.random() < .2:
            date = next((v for n, v in given.items() if n.lower() == 'warc-date'), date)
        rec = b.create_revisit_record(uri, dig, ref, date, **kw)
        t1 = utcnow()
        check(ctx, rec, version, 'revisit', uri, list(given.items()), t0, t1, 'revisit', http,
              added=[('WARC-Profile', PROFILE % ('1.1' if version == 'WARC/1.1' else '1.0')), ('WARC-Refers-To-Target-URI', ref),
                     ('WARC-Refers-To-Date', date), ('WARC-Payload-Digest', dig)])
        ctx.equal((given, list(given)), (keep, order), 'dict given to create_revisit_record')
        return rec, b'', 'revisit'
    body = gen.payload(rng)
    kw = {}
    ctype = None
    if rng.random() < .3:
        kw['warc_content_type'] = ctype = 'text/x-' + gen.token(rng)
    data = body
    if rtype in writing.HTTP_TYPES:
        k = rng.random()
        if rtype == 'revisit':
            data = body = b''
        if k < .4:
            obj, http = writing.http_object(rng, rtype)
            kw['http_headers'] = obj
        elif uri.startswith(('http:', 'https:')):
            first, hh, head = gen.http_head(rng, rtype, True)
            proto, _, status = first.partition(' ')
            http = (proto, status.strip(), list(hh))
            data = head + body
        elif uri.startswith('HTTP') or uri.startswith('httpx'):
            uri = 'urn:x:1'
    if data or rng.random() < .3:
        kw['payload'] = io.BytesIO(data) if rng.random() < .7 else writing.Unseekable(data)
        if rng.random() < .6 or not data:
            kw['length'] = len(data)
    if kind == 'headers':
        items = [('WARC-Type', rtype), ('WARC-Target-URI', uri), ('WARC-Record-ID', gen.uuid(rng)), ('WARC-Date', gen.warc_date(rng))] + \
            [h for h in given.items() if h[0].lower() not in ('warc-type', 'warc-target-uri', 'warc-record-id', 'warc-date')]
        rng.shuffle(items)
        whdrs = StatusAndHeaders('', list(items), protocol=version)
        rec = b.create_warc_record(uri, rtype, warc_headers=whdrs, **kw)
        check(ctx, rec, version, rtype, uri, items, t0, utcnow(), 'record with warc_headers', http, ctype)
    else:
        # the uri may also be given in the dict only
        inarg = uri
        if rng.random() < .1 and not http:
            inarg = rng.choice(['', None])
        if given or rng.random() < .5:
            kw['warc_headers_dict'] = given
        rec = b.create_warc_record(inarg, rtype, **kw)
        check(ctx, rec, version, rtype, inarg, list(given.items()), t0, utcnow(), 'record', http, ctype)
        ctx.equal((given, list(given)), (keep, order), 'dict given to create_warc_record')
    if obj is not None:
        ctx.expect(rec.http_headers is obj or rec.http_headers == obj, 'http headers of the record')
        ctx.equal(list(obj.headers), http[2], 'http headers given to create_warc_record')
    return rec, body, kind


def forked_ids(ctx, b):
    """processes forked from this one make other ids"""
    pipes = []
    for _ in range(2):
        r, w = os.pipe()
        pid = os.fork()
        if not pid:
            try:
                ids = [b.create_warc_record('http://h/', 'resource').rec_headers.get_header('WARC-Record-ID') for _ in range(20)]
                os.write(w, '\n'.join(ids).encode())
            finally:
                os._exit(0)
        os.close(w)
        pipes.append((r, pid))
    mine = [b.create_warc_record('http://h/', 'resource').rec_headers.get_header('WARC-Record-ID') for _ in range(20)]
    for r, pid in pipes:
        data = b''
        while True:
            d = os.read(r, 65536)
            if not d:
                break
            data += d
        os.close(r)
        os.waitpid(pid, 0)
        mine += data.decode().split('\n')
    ctx.equal(len(mine), 60, 'records built in processes')
    for i in mine:
        check_id(ctx, i, 'record built in one of several processes')
        ctx.ev('forked_ids')


def case(rng, ctx, idx):
    zone = None
    if rng.random() < .3:
        zone = rng.choice(ZONES)
        ctx.ev('zones')
        os.environ['TZ'] = zone
        time.tzset()
    try:
        case_in(rng, ctx, idx)
    finally:
        if zone:
            del os.environ['TZ']
            time.tzset()


def case_in(rng, ctx, idx):
    arg, version = rng.choice(VERSIONS)
    k = rng.randrange(4)
    if rng.random() < .1:
        # ids do not depend on the state of other random numbers
        random.seed(5)
        ctx.ev('seeded')
    if k == 3:
        b, version = rng.choice(ctx.state['builders'])
        w = BufferWARCWriter(gzip=False, warc_version=rng.choice(VERSIONS)[0])
        ctx.ev('old_builders')
    elif k == 0:
        b = RecordBuilder(warc_version=arg) if rng.random() < .8 or version != 'WARC/1.0' else RecordBuilder()
        w = BufferWARCWriter(gzip=False, warc_version=rng.choice(VERSIONS)[0])
    else:
        b = w = BufferWARCWriter(gzip=rng.random() < .5, warc_version=arg)
    if rng.random() < .02:
        forked_ids(ctx, b)
    shared = None
    if rng.random() < .5:
        shared = {'dict': dict(dict_args(rng, ctx))}
        for n in list(shared['dict']):
            if n.lower() in ('warc-record-id', 'warc-payload-digest'):
                del shared['dict'][n]
    try:
        built = []
        for _ in range(rng.choice([1, 2, 3])):
            built.append(build_one(rng, ctx, b, version, shared))
        if rng.random() < .25:
            # a pair
            ctx.ev('pairs')
            resp, rbody, _ = build_one(rng, ctx, b, version, shared)
            req, qbody, _ = build_one(rng, ctx, b, version, shared)
            if not resp.rec_headers.get_header('WARC-Target-URI'):
                return
            before = list(resp.rec_headers.headers)
            qbefore = list(req.rec_headers.headers)
            w.write_request_response_pair(req, resp)
            data = w.get_contents()
            recs = refwarc.parse_warc(data, w.gzip)
            ctx.equal(len(recs), 2, 'records written as a pair')
            m, q = recs[0][0], recs[1][0]
            for name in ('WARC-Target-URI', 'WARC-Date'):
                ctx.equal(get(q.headers, name), get(before, name), 'pair: %s of the request' % name)
                ctx.equal(get(m.headers, name), get(before, name), 'pair: %s of the response' % name)
            ctx.equal(get(q.headers, 'WARC-Concurrent-To'), get(qbefore, 'WARC-Concurrent-To') + get(before, 'WARC-Record-ID'), 'pair: WARC-Concurrent-To of the request')
            ctx.equal(get(m.headers, 'WARC-Concurrent-To'), get(before, 'WARC-Concurrent-To'), 'pair: WARC-Concurrent-To of the response')
            for n, v in qbefore:
                if n.lower() not in ('warc-target-uri', 'warc-date') + writing.AUTO:
                    ctx.expect((n, v) in q.headers, 'pair: header %s: %s of the request is lost' % (n, v))
            ctx.equal([h for h in m.headers if h[0].lower() not in writing.AUTO],
                      [h for h in before if h[0].lower() not in writing.AUTO], 'pair: headers of the response')
            w.out.seek(0)
            w.out.truncate()
        if rng.random() < .4:
            for rec, body, what in built:
                before = list(rec.rec_headers.headers)
                w.write_record(rec)
                ctx.ev('written')
            recs = refwarc.parse_warc(w.get_contents(), w.gzip)
            ctx.equal(len(recs), len(built), 'records written')
            for (m, _, _), (rec, body, what) in zip(recs, built):
                ctx.equal(m.version, version, what + ': version written')
                ctx.equal(m.rtype, rec.rec_type, what + ': type written')
                ctx.equal(get(m.headers, 'Content-Type'), [rec.content_type], what + ': content type written')
                for n in {n.lower() for n, _ in m.headers}:
                    want = get(rec.rec_headers.headers, n)
                    ctx.equal(get(m.headers, n), want, '%s: header %s written' % (what, n))
                    ctx.expect(len(want) == 1, '%s: header %s appears %d times' % (what, n, len(want)))
                ctx.expect(m.block.endswith(body), what + ': payload written')
    finally:
        w.out.close()
