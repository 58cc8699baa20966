"""Workload for the writing properties: records built in every documented way, with what has to come out."""
import io
import os
import tempfile

from wv import gen, refwarc
from wv.core import Violation
from warcio.statusandheaders import StatusAndHeaders
from warcio.archiveiterator import ArchiveIterator
from warcio.warcwriter import WARCWriter, BufferWARCWriter
from warcio.recordbuilder import RecordBuilder

AUTO = ('content-length', 'content-type', 'warc-block-digest', 'warc-payload-digest')
HTTP_TYPES = ('response', 'request', 'revisit')
DEFAULT_CT = {'warcinfo': 'application/warc-fields', 'response': 'application/http; msgtype=response',
              'revisit': 'application/http; msgtype=response', 'request': 'application/http; msgtype=request',
              'metadata': 'application/warc-fields'}


class Exp(object):
    """what a written record has to say"""
    def __init__(self, **kw):
        self.rtype = None
        self.version = 'WARC/1.0'
        self.uri = None
        self.headers = []            # given headers in order (without AUTO ones)
        self.auto = ()               # names of headers the builder adds itself
        self.http = None             # (protocol, statusline, headers) to be written
        self.payload = b''           # block without http headers
        self.ctype = None            # expected Content-Type, None = none
        self.supplied = {}           # digests given by the caller
        self.known_length = True
        self.how = ''
        self.given_head = None       # http header bytes given by the caller, if not an object
        self.__dict__.update(kw)

    @property
    def block(self):
        if self.http is None:
            return self.payload
        proto, status, hdrs = self.http
        head = proto + (' ' if proto and status else '') + status
        out = (head + '\r\n' if head else '') + ''.join('%s: %s\r\n' % h for h in hdrs) + '\r\n'
        return out.encode('ascii') + (b'' if self.rtype == 'revisit' else self.payload)

    @property
    def head_rewritten(self):
        """were the http headers given as bytes, and are written differently"""
        return self.given_head is not None and not (self.given_head + self.payload).startswith(
            self.block[:len(self.block) - (0 if self.rtype == 'revisit' else len(self.payload))])

    @property
    def reads_http(self):
        """does a reader parse http headers of this record"""
        return (self.rtype in HTTP_TYPES and bool(self.uri) and self.uri.startswith(('http:', 'https:'))
                and len(self.block) > 0)

    def brief(self):
        return {'how': self.how, 'type': self.rtype, 'uri': self.uri, 'payload_len': len(self.payload),
                'http': self.http and [self.http[0], self.http[1], self.http[2][:3]], 'supplied': self.supplied,
                'known_length': self.known_length}


# ---------------------------------------------------------------- payload sources
class Unseekable(object):
    """read and readline only; may return fewer bytes than asked for"""
    def __init__(self, data, policy=None):
        self.b = io.BytesIO(data)
        self.policy = policy

    def read(self, n=-1):
        if self.policy and n is not None and n > 1:
            n = self.policy(n)
        return self.b.read(n)

    def readline(self, n=-1):
        return self.b.readline(n)

    def close(self):
        pass


class SeekFails(Unseekable):
    def tell(self):
        raise io.UnsupportedOperation('tell')

    def seek(self, *a):
        raise io.UnsupportedOperation('seek')


class TellOnly(Unseekable):
    """tell() works but seek() does not"""
    def tell(self):
        return self.b.tell()

    def seek(self, *a):
        raise OSError(29, 'Illegal seek')


def payload_source(rng, data, ctx):
    """-> (stream, description): a stream that delivers data"""
    from wv.common import policies
    k = rng.randrange(8)
    if k <= 1:
        return io.BytesIO(data), 'BytesIO'
    if k == 2:
        pre = gen.randbytes(rng, rng.randrange(1, 50))
        if rng.random() < .1:
            pre *= 400
        b = io.BytesIO(pre + data)
        b.seek(len(pre))
        return b, 'BytesIO at offset'
    if k == 3:
        f = tempfile.TemporaryFile(dir=ctx.tmp)
        pre = b'x' * rng.choice([0, 0, 7, 7, 7, 20000])
        f.write(pre + data)
        f.seek(len(pre))
        ctx.state.setdefault('files', []).append(f)
        return f, 'file'
    if k == 4:
        f = tempfile.SpooledTemporaryFile(max_size=100)
        f.write(data)
        f.seek(0)
        return f, 'SpooledTemporaryFile'
    pol = policies(rng) if len(data) < 20000 else None
    if k == 5:
        return Unseekable(data, pol), 'read-only object'
    if k == 6:
        return SeekFails(data, pol), 'seek fails'
    return TellOnly(data, pol), 'tell only'


def drop_files(ctx):
    for f in ctx.state.pop('files', []):
        f.close()


# ---------------------------------------------------------------- header material
def http_object(rng, rtype, filt=None, ctx=None):
    """-> (StatusAndHeaders, (protocol, statusline, headers) as written)"""
    last = ctx.state.pop('last_http', None) if ctx else None
    if last and last[0] == rtype and rng.random() < .4:
        # the object given for a record written before, changed or not
        obj = last[1]
        ctx.ev('http_objects_again')
        for _ in range(rng.choice([0, 1, 1, 2])):
            k = rng.randrange(4)
            if k == 0:
                obj.add_header(gen.token(rng), 'a')
            elif k == 1 and obj.headers:
                obj.replace_header(rng.choice(obj.headers)[0], rng.choice(['', 'b', 'x' * 20]))
            elif k == 2 and obj.headers:
                obj.remove_header(rng.choice(obj.headers)[0])
            else:
                obj.statusline = '/again HTTP/1.1' if rtype == 'request' else '299 Again'
        return obj, (obj.protocol, obj.statusline, apply_filter(obj.headers, filt))
    first, hdrs, _ = gen.http_head(rng, rtype, True)
    proto, _, status = first.partition(' ')
    status = status.strip()
    k = rng.randrange(4)
    if rtype == 'request' and rng.random() < .5:
        obj = StatusAndHeaders(first, list(hdrs), is_http_request=True)
    elif k == 0:
        obj = StatusAndHeaders(status, [(n.encode(), v.encode()) for n, v in hdrs], protocol=proto)
    elif k == 1 and len({n for n, _ in hdrs}) == len(hdrs):
        obj = StatusAndHeaders(status, dict(hdrs), protocol=proto)
    else:
        obj = StatusAndHeaders(status, list(hdrs), protocol=proto)
    return obj, (proto, status, apply_filter(hdrs, filt))


def apply_filter(hdrs, filt):
    if not filt:
        return list(hdrs)
    return [h for h in (filt(h) for h in hdrs) if h]


def header_filter(rng):
    k = rng.randrange(3)
    none = rng.choice([None, None, (), '', False])
    if k == 0:
        return lambda h: none if h[0].lower() in ('set-cookie', 'server') else h
    if k == 1:
        return lambda h: ('X-Archive-Orig-' + h[0], h[1]) if h[0].lower() == 'etag' else h
    return lambda h: none if h[0].lower().startswith('x-') else (h[0], h[1].replace('alpha', 'omega'))


def extra_headers(rng, block_digest=None):
    out = []
    seen = set()
    for _ in range(rng.choice([0, 0, 1, 2, 5])):
        n = rng.choice([gen.token(rng), 'WARC-Identified-Payload-Type', 'WARC-Warcinfo-ID', 'WARC-IP-Address', 'WARC-Truncated'])
        if n.lower() in seen or n.lower() in AUTO:
            continue
        seen.add(n.lower())
        out.append((n, gen.value(rng)))
    if rng.random() < .1:
        out.append(('WARC-Concurrent-To', gen.uuid(rng)))
    return out


# ---------------------------------------------------------------- one record
def fake_digest(rng):
    return refwarc.digest(gen.randbytes(rng, 8), rng.choice(['sha1', 'sha256']), rng.choice(['b32', 'hex']))


def written(ctx, rec):
    """after a record was written: its HTTP headers may be used again"""
    if rec.http_headers is not None and rec.http_headers.parsed_buff is None:
        ctx.state['last_http'] = (rec.rec_type, rec.http_headers)
    else:
        ctx.state.pop('last_http', None)


def build(rng, ctx, builder, big=False, filt=None, kinds=None, digests=True):
    """build one record with the given builder -> (record, Exp)"""
    rec, e = _build(rng, ctx, builder, big, filt, kinds, digests)
    # the payload digest is there as soon as the record is (to look for records with the same payload)
    have = [v for n, v in rec.rec_headers.headers if n.lower() == 'warc-payload-digest']
    given = e.supplied.get('WARC-Payload-Digest')
    want = [given] if given else [] if e.rtype in ('warcinfo', 'revisit') else [refwarc.digest(e.payload)]
    ctx.equal(have, want, 'payload digest of a %s record just created (%s)' % (e.rtype, e.how))
    ctx.ev('digests_of_created', len(want))
    return rec, e


def _build(rng, ctx, builder, big=False, filt=None, kinds=None, digests=True):
    kind = rng.choice(kinds or ['http_obj'] * 3 + ['http_parsed'] * 3 + ['plain'] * 3 + ['empty', 'warcinfo', 'revisit', 'revisit',
                                                                                   'warc_headers', 'revisit_created'])
    version = builder.warc_version
    if kind == 'warcinfo':
        info = {}
        for _ in range(rng.choice([0, 1, 3, 6])):
            info[gen.token(rng) + rng.choice(['', '\u00e9'])] = rng.choice([gen.value(rng), '', 12, None, True, 1.5])
        fn = rng.choice([None, '', 'a.warc.gz', '\u00e9 b.warc'])
        payload = b''.join(('%s: %s\r\n' % (n, v)).encode('utf-8') for n, v in info.items() if v)
        rec = builder.create_warcinfo_record(fn, info)
        return rec, Exp(rtype='warcinfo', version=version, headers=[('WARC-Type', 'warcinfo')] + ([('WARC-Filename', fn)] if fn else []),
                        auto=('warc-record-id', 'warc-date'), payload=payload, ctype='application/warc-fields', how=kind)

    if kind == 'revisit_created':
        uri = gen.http_url(rng)
        dig = refwarc.digest(gen.randbytes(rng, 5))
        ref, refdate = gen.http_url(rng), gen.warc_date(rng)
        http = None
        kw = {}
        if rng.random() < .6:
            kw['http_headers'], http = http_object(rng, 'revisit', filt, ctx)
        extra = extra_headers(rng)
        if extra or rng.random() < .3:
            kw['warc_headers_dict'] = dict(extra)
        rec = builder.create_revisit_record(uri, dig, ref, refdate, **kw)
        profile = 'http://netpreserve.org/warc/%s/revisit/identical-payload-digest' % ('1.1' if version == 'WARC/1.1' else '1.0')
        return rec, Exp(rtype='revisit', version=version, uri=uri, http=http, how=kind,
                        headers=[h for h in extra] + [('WARC-Type', 'revisit'), ('WARC-Target-URI', uri), ('WARC-Profile', profile),
                                                       ('WARC-Refers-To-Target-URI', ref), ('WARC-Refers-To-Date', refdate)],
                        supplied={'WARC-Payload-Digest': dig}, auto=('warc-record-id', 'warc-date'),
                        ctype=DEFAULT_CT['revisit'])

    rtype = rng.choice(['response', 'request', 'response', 'request', 'revisit'] if kind.startswith('http') else
                       ['resource', 'metadata', 'conversion', 'continuation', 'x-custom', 'response', 'revisit'])
    if rtype == 'x-custom':
        rtype = rng.choice(gen.CUSTOM)
    if kind == 'revisit':
        rtype = 'revisit'
    http_kind = kind.startswith('http') or kind == 'revisit' and rng.random() < .5
    if http_kind:
        uri = gen.http_url(rng)
    else:
        uri = gen.other_url(rng) if rtype in HTTP_TYPES else rng.choice([gen.http_url, gen.other_url])(rng)
    if uri.startswith(('HTTP:', 'httpx:')):
        uri = 'urn:x:%d' % rng.getrandbits(20)
    payload = gen.payload(rng, big)
    if kind == 'empty':
        payload = b''
    if rtype == 'revisit' and http_kind and rng.random() < .6:
        payload = b''
    e = Exp(rtype=rtype, version=version, uri=uri, payload=payload, how=kind)
    kw = {}
    hdrs = []
    data = payload
    if http_kind:
        if kind == 'http_parsed':
            first, hh, head = gen.http_head(rng, rtype, True)
            if rng.random() < .15:
                # the same headers, written differently
                head = gen.encode_http_head(first, hh, eol=b'\n')
                if rng.random() < .5:
                    head = head.replace(b': ', b':   ')
                    hh = [(n, v.replace(': ', ':   ')) for n, v in hh]
                    first = first.replace(': ', ':   ')
                ctx.ev('noncanonical_http_head')
            proto, _, status = first.partition(' ')
            e.http = (proto, status.strip(), apply_filter(hh, filt))
            data = head + payload
            e.given_head = head
        else:
            kw['http_headers'], e.http = http_object(rng, rtype, filt, ctx)
    # payload source
    if (kind == 'empty' or not data) and rng.random() < .5:
        if rng.random() < .5:
            kw['payload'] = None
        else:
            kw['payload'], kw['length'] = io.BytesIO(), 0
        src = 'none'
    else:
        stream, src = payload_source(rng, data, ctx)
        if 'wrap_source' in ctx.state:
            stream = ctx.state['wrap_source'](stream)
        kw['payload'] = stream
        if rng.random() < .55:
            kw['length'] = len(data)
        else:
            e.known_length = False
            ctx.ev('unknown_length')
    e.how += ', payload: %s, length %s' % (src, 'known' if e.known_length else 'unknown')
    # digests given by the caller
    if digests and rng.random() < .3:
        for name in rng.sample(['WARC-Payload-Digest', 'WARC-Block-Digest'], rng.choice([1, 2])):
            e.supplied[name] = fake_digest(rng)
    # record headers
    extra = extra_headers(rng)
    ctype = rng.choice([None, None, 'text/x-' + gen.token(rng)])
    e.auto = ('warc-record-id', 'warc-date')
    given = []
    if rng.random() < .4:
        given.append(('WARC-Date', gen.warc_date(rng, version == 'WARC/1.1')))
    if rng.random() < .3:
        given.append(('WARC-Record-ID', gen.uuid(rng)))
    given += extra + list(e.supplied.items())
    e.auto = tuple(a for a in e.auto if a not in [n.lower() for n, _ in given])
    ct_given = None
    if ctype and rng.random() < .5:
        given.append(('Content-Type', ctype))
        ct_given = ctype
    elif ctype:
        kw['warc_content_type'] = ctype
        ct_given = ctype
    rng.shuffle(given)
    e.ctype = ct_given or DEFAULT_CT.get(rtype, 'application/warc-record')
    if kind == 'warc_headers':
        full = [('WARC-Type', rtype), ('WARC-Target-URI', uri)] + given
        rng.shuffle(full)
        kw['warc_headers'] = StatusAndHeaders('', full, protocol=version)
        e.headers = [h for h in full if h[0].lower() not in AUTO]
        e.auto = ()
        kw.pop('warc_headers_dict', None)
        rec = builder.create_warc_record(uri, rtype, **kw)
    else:
        if given or rng.random() < .3:
            kw['warc_headers_dict'] = dict(given)
        rec = builder.create_warc_record(uri, rtype, **kw)
        e.headers = [h for h in given if h[0].lower() not in AUTO] + [('WARC-Type', rtype), ('WARC-Target-URI', uri)]
    return rec, e


# ---------------------------------------------------------------- sinks
class Sink(object):
    """output object: what was written, and what had been written at the last flush"""
    def __init__(self):
        self.parts = []
        self.size = 0
        self.flushed = 0
        self.writes = 0

    def write(self, b):
        b = bytes(b)
        self.parts.append(b)
        self.size += len(b)
        self.writes += 1
        # the result of write() is not to be relied on
        return len(b) if self.writes % 3 else None

    def flush(self):
        self.flushed = self.size

    def value(self):
        if len(self.parts) > 1:
            self.parts = [b''.join(self.parts)]
        return self.parts[0] if self.parts else b''


def subsequence(small, big):
    it = iter(big)
    return all(any(x == y for y in it) for x in small)


def check_headers(ctx, got, e, where, digests=True):
    """record headers read back (list) against what was given"""
    plain = [h for h in got if h[0].lower() not in AUTO and h[0].lower() not in e.auto]
    ctx.equal(sorted(plain), sorted(e.headers), where + ': record headers')
    by = {}
    for n, v in got:
        by.setdefault(n.lower(), []).append(v)
    for a in e.auto + ('content-length',):
        ctx.expect(len(by.get(a, [])) == 1, where + ': header %s appears %d times' % (a, len(by.get(a, []))), headers=got)
    ctx.equal(by.get('content-type'), [e.ctype] if e.ctype is not None else None, where + ': Content-Type')
    return by


# ---------------------------------------------------------------- a writing session
class FileSink(object):
    """a real file, buffered by the library's caller; value() is what another process sees"""
    def __init__(self, ctx, rng):
        self.path = os.path.join(ctx.tmp, 'out-%d.warc' % ctx.counters['file_sinks'])
        ctx.ev('file_sinks')
        self.fh = open(self.path, 'wb', buffering=rng.choice([8192, 100, 1 << 20]))

    def value(self):
        with open(self.path, 'rb') as f:
            return f.read()

    def close(self):
        self.fh.close()
        os.unlink(self.path)


def session(rng, ctx, after_write, pairs=True, big=.03):
    """write a random sequence of records; after_write(data so far, expectations so far, description) after each write.
    data is what has reached the output's reader: flushed bytes only."""
    gz = rng.random() < .5
    filt = header_filter(rng) if rng.random() < .2 else None
    args = {'gzip': gz, 'header_filter': filt, 'warc_version': rng.choice([None, '1.0', '1.1', 'WARC/1.1', 1.1, 'WARC/0.18'])}
    how = rng.choice(['sink', 'sink', 'buffer', 'file'])
    fs = None
    if how == 'buffer':
        w = BufferWARCWriter(**args)

        def value():
            # the contents, however they were looked at before
            if rng.random() < .3:
                w.get_stream().read(rng.choice([0, 1, 100]))
                part = w.get_contents()
                whole = w.get_stream().read()
                ctx.equal(part, whole, 'get_contents() after a part of get_stream() was read')
                ctx.ev('buffer_streams')
            return w.get_contents()
    elif how == 'file':
        fs = FileSink(ctx, rng)
        w = WARCWriter(fs.fh, **args)
        value = fs.value
    else:
        sink = Sink()
        w = WARCWriter(sink, **args)

        def value():
            ctx.equal(sink.flushed, sink.size, 'bytes flushed when the write returned')
            return sink.value()
    exps = []
    ctx.state.pop('last_http', None)
    other = RecordBuilder(warc_version='1.1')
    try:
        for _ in range(rng.choice([1, 1, 2, 3, 5])):
            isbig = rng.random() < big
            if isbig:
                ctx.ev('big_payloads')
            if pairs and rng.random() < .2:
                resp, re_ = build(rng, ctx, w, filt=filt, kinds=['http_obj', 'http_parsed', 'revisit_created'], big=isbig)
                req, qe = build(rng, ctx, w, filt=filt, kinds=['http_obj', 'http_parsed'])
                ruri = resp.rec_headers.get_header('WARC-Target-URI')
                w.write_request_response_pair(req, resp)
                written(ctx, rng.choice([req, resp]))
                rid = resp.rec_headers.get_header('WARC-Record-ID')
                rdate = resp.rec_headers.get_header('WARC-Date')
                qe.headers = [(n, ruri if n == 'WARC-Target-URI' else rdate if n == 'WARC-Date' else v) for n, v in qe.headers]
                qe.headers.append(('WARC-Concurrent-To', rid))
                qe.uri = ruri
                ctx.ev('pairs')
                exps += [re_, qe]
            elif rng.random() < .15:
                # a record built by a builder with another version
                rec, e = build(rng, ctx, other, filt=filt, big=isbig)
                w.write_record(rec)
                written(ctx, rec)
                exps.append(e)
            else:
                rec, e = build(rng, ctx, w, filt=filt, big=isbig)
                w.write_record(rec)
                written(ctx, rec)
                exps.append(e)
            after_write(value(), exps, gz, '%s output, %s' % (how, 'gzip' if gz else 'plain'))
    finally:
        drop_files(ctx)
        if fs:
            fs.close()
        if how == 'buffer':
            w.out.close()
    return exps, gz
