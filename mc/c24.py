"""Documents fetched by URL."""
import itertools
import os
import socket
import threading

from mc.core import Mismatch, check
from mc.pdpcheck import base, shard

VARS = ('http_proxy', 'https_proxy', 'ftp_proxy', 'all_proxy', 'no_proxy')


class Server(object):
    """Answers each request with the raw bytes set for its target; records the
    requests."""

    def __init__(self, host='127.0.0.1'):
        self.sock = socket.socket()
        self.sock.bind((host, 0))
        self.sock.listen(16)
        self.port = self.sock.getsockname()[1]
        self.url = 'http://%s:%d' % (host, self.port)
        self.answers, self.seen, self.default = {}, [], None
        self.closed = False
        threading.Thread(target=self.serve, daemon=True).start()

    def serve(self):
        while True:
            try:
                c, _ = self.sock.accept()
            except OSError:
                return
            if self.closed:
                c.close()
                return
            try:
                c.settimeout(10)
                data = b''
                while b'\r\n\r\n' not in data:
                    more = c.recv(65536)
                    if not more:
                        break
                    data += more
                if not data:
                    continue
                line = data.split(b'\r\n')[0].decode('latin-1').split(' ')
                self.seen.append((line[0], line[1]))
                out = self.answers.get(line[1], self.default)
                for part in (out if isinstance(out, list) else [out or b'']):
                    c.sendall(part)
            except OSError:
                pass
            finally:
                c.close()

    def close(self):
        self.closed = True
        try:
            socket.create_connection(self.sock.getsockname(), 5).close()
        except OSError:
            pass
        self.sock.close()


def answer(status=200, body=b'', length=True, headers=(), http=b'1.1'):
    h = [b'HTTP/%s %d Whatever' % (http, status)]
    h += [a.encode() + b': ' + b.encode() for a, b in headers]
    if length is not False:
        h.append(b'Content-Length: %d' % (len(body) if length is True
                                          else length))
    h.append(b'Connection: close')
    return b'\r\n'.join(h) + b'\r\n\r\n' + body


def chunked(body, size, end=True):
    out = b'HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n'
    for i in range(0, len(body), size):
        p = body[i:i + size]
        out += b'%x\r\n%s\r\n' % (len(p), p)
    return out + (b'0\r\n\r\n' if end else b'')


def environment(**kw):
    for v in VARS:
        for n in (v, v.upper()):
            os.environ.pop(n, None)
    for n, v in kw.items():
        if v is not None:
            os.environ[n] = v


def ways():
    from ndg.xacml.utils import urlfetcher as u

    def stream(url):
        s = u.fetch_stream_from_url(url)
        try:
            return s.read()
        finally:
            s.close()

    def pieces(url):
        s = u.fetch_stream_from_url(url)
        out = []
        try:
            while True:
                p = s.read(1000)
                if not p:
                    return b''.join(out)
                out.append(p)
        finally:
            s.close()
    return [('data', u.fetch_data_from_url), ('stream', stream),
            ('pieces', pieces)]


def fetch(fn, url):
    try:
        return fn(url)
    except Exception as e:
        return e


def fetched(ctx, url, want, which=('data', 'stream', 'pieces')):
    """want: the bytes or None for an error."""
    for name, fn in ways():
        if name not in which:
            continue
        got = fetch(fn, url)
        if want is None:
            check(isinstance(got, Exception), '%s fetched from %s' % (name, url),
                  'error', repr(got)[:80])
            ctx.outcome('error')
        else:
            check(not isinstance(got, Exception), '%s fetch of %s refused' % (
                name, url), 'content', repr(got)[:200])
            check(type(got) is bytes and got == want,
                  '%s fetched from %s' % (name, url), repr(want)[:80],
                  repr(got)[:80])
            ctx.outcome('content')
        ctx.step()
    ctx.state()


BODIES = [b'', b'x', b'<Policy/>', bytes(range(256)), b'\r\n\r\n', b'\0' * 3,
          b'\xef\xbb\xbf<a/>', '<\u00e9>'.encode('utf-8'), b'a\r\nb\nc\rd',
          b'0\r\n\r\n', b'line\n' * 5000, b'n' * 999, b'n' * 1000, b'n' * 1001,
          b'n' * 65535, b'n' * 65536, b'n' * 65537,
          bytes(range(256)) * 4096]


# -- content -----------------------------------------------------------------------
def content(ctx, job):
    environment()
    s = Server()
    try:
        for i, b in enumerate(BODIES):
            for name, a in (
                    ('length', answer(200, b)), ('old', answer(
                        200, b, http=b'1.0')), ('until closed', answer(
                            200, b, False)),
                    ('typed', answer(200, b, headers=[(
                        'Content-Type', 'text/html; charset=latin-1')])),
                    ('parts', [answer(200, b, len(b))[:-len(b) or None]] +
                     [b[k:k + 7001] for k in range(0, len(b), 7001)]),
                    ('chunks 1', chunked(b[:300], 1)),
                    ('chunks 1000', chunked(b, 1000)),
                    ('chunks', chunked(b, 70000))):
                want = b[:300] if name == 'chunks 1' else b
                for t in ('/', '/a/b.xml', '/a?x=1&y=%20z'):
                    ctx.case('%d %s %s' % (i, name, t), one, ctx, s, t, a, want)
            for cut in sorted({0, 1, len(b) // 2, len(b) - 1}):
                if 0 <= cut < len(b):
                    ctx.case('%d cut at %d' % (i, cut), one, ctx, s, '/c',
                             answer(200, b[:cut], len(b)), None, ('data',))
            for cut in (1, len(b) // 2):
                if b[:cut]:
                    ctx.case('%d chunks cut at %d' % (i, cut), one, ctx, s, '/c',
                             chunked(b[:cut], 100, False), None, ('data',))
    finally:
        s.close()


def one(ctx, s, target, a, want, which=('data', 'stream', 'pieces')):
    s.answers.clear()
    s.answers[target] = a
    s.default = answer(404, b'other')
    del s.seen[:]
    fetched(ctx, s.url + target, want, which)
    check(s.seen == [('GET', target)] * len(which), 'requests made',
          [('GET', target)] * len(which), s.seen)
    if want is not None:
        fetched(ctx, s.url + target + '#part', want, which)


# -- statuses ----------------------------------------------------------------------
def statuses(ctx, job):
    environment()
    s = Server()
    try:
        for code in list(range(200, 207)) + list(range(400, 600)):
            for b in (b'', b'<Policy/>', b'e' * 70000):
                if code in (204, 205) and b:
                    continue
                ctx.case('%d %d' % (code, len(b)), one, ctx, s, '/p',
                         answer(code, b), b if code < 300 else None,
                         ('data', 'stream'))
        for code in range(300, 400):
            if code in (301, 302, 303, 307, 308):
                continue
            ctx.case('%d' % code, one, ctx, s, '/p', answer(
                code, b'<Policy/>', headers=[('Location', '/q')]), None,
                ('data', 'stream'))
        for name, a in (('nothing', b''), ('garbage', b'garbage\r\n\r\n'),
                        ('half', b'HTTP/1.1 2'), ('number', b'HTTP/1.1 abc OK'
                                                  b'\r\n\r\n<Policy/>')):
            ctx.case('answer ' + name, one, ctx, s, '/p', a, None,
                     ('data', 'stream'))
        # every sequence of answers to the same address
        kinds = [(200, b'A'), (200, b''), (404, b'B'), (500, b''), (203, b'C')]
        for h in itertools.product(kinds, repeat=4 if ctx.thorough else 3):
            ctx.case('history %r' % (h,), sequence, ctx, s, h)
    finally:
        s.close()


def sequence(ctx, s, h):
    for code, b in h:
        one(ctx, s, '/p', answer(code, b), b if code < 300 else None,
            ('data', 'stream'))


# -- redirections ------------------------------------------------------------------
def redirections(ctx, job):
    environment()
    s, o = Server(), Server('127.0.0.2')
    try:
        codes = (301, 302, 303, 307, 308)
        ends = [('content', answer(200, b'end'), b'end'),
                ('missing', answer(404, b'no'), None),
                ('failing', answer(503, b'no'), None)]
        for n in (1, 2, 3):
            for cs in itertools.product(codes, repeat=n):
                if n == 3 and len(set(cs)) > 1 and not ctx.thorough:
                    continue
                for e in ends:
                    for hop in ('same', 'other', 'relative'):
                        ctx.case('%r %s %s' % (cs, e[0], hop), redirected, ctx,
                                 s, o, cs, e, hop)
        for c in codes:
            for name, to in (('itself', '/0'), ('nowhere', None),
                             ('file', 'file:///etc/hostname'),
                             ('unknown scheme', 'mc-none://x/y')):
                ctx.case('%d to %s' % (c, name), lost, ctx, s, c, to)
    finally:
        s.close()
        o.close()


def redirected(ctx, s, o, cs, end, hop):
    s.answers.clear()
    o.answers.clear()
    s.default = o.default = answer(404, b'other')
    here = s
    want = []
    for i, c in enumerate(cs):
        there = o if hop == 'other' and here is s else s
        loc = '/%d' % (i + 1)
        if hop != 'relative':
            loc = there.url + loc
        here.answers['/%d' % i] = answer(c, b'moved', headers=[('Location',
                                                                 loc)])
        here = there
    here.answers['/%d' % len(cs)] = end[1]
    fetched(ctx, s.url + '/0', end[2], ('data', 'stream'))


def lost(ctx, s, c, to):
    s.answers.clear()
    s.answers['/0'] = answer(c, b'moved', headers=[('Location', to)] if to
                             else [])
    fetched(ctx, s.url + '/0', None, ('data', 'stream'))


# -- files and addresses that lead nowhere -----------------------------------------
def places(ctx, job):
    environment()
    top = os.path.join(ctx.scratch, 'c24')
    os.makedirs(os.path.join(top, 'dir'), exist_ok=True)
    for i, b in enumerate(BODIES):
        p = os.path.join(top, 'f%d' % i)
        with open(p, 'wb') as f:
            f.write(b)
        ctx.case('file %d' % i, fetched, ctx, 'file://' + p, b)
    for name in ('a b.xml', 'a%b.xml', 'ab+c.xml'):
        p = os.path.join(top, name)
        with open(p, 'wb') as f:
            f.write(name.encode())
        u = 'file://' + p.replace('%', '%25').replace(' ', '%20')
        ctx.case('file ' + name, fetched, ctx, u, name.encode())
    s = Server()
    free = s.port
    s.close()
    for u in ('file://' + top + '/none', 'file://' + top + '/dir',
              'file://' + top + '/f0/x', 'http://127.0.0.1:%d/' % free,
              'http://127.0.0.1:0/', '', 'x', '/', top + '/f1',
              'mc-none://x/y', 'http:', 'http://', '127.0.0.1'):
        ctx.case('nowhere ' + u.replace(top, '').replace(str(free), 'free'),
                 fetched, ctx, u, None)


# -- proxies -------------------------------------------------------------------------
ENTRIES = ['127.0.0.1', '127.0.0.2', '127.0.0.10', '127.0.0', '27.0.0.1',
           'localhost', 'mc.example', 'mc.example.org', '']
FORMS = ['%s', ' %s', '%s ', '\t%s  ']


def lists(n):
    yield None, ()
    for k in range(1, n + 1):
        for es in itertools.product(ENTRIES, repeat=k):
            if k == 1:
                for f in FORMS:
                    yield f % es[0], es
            elif k == 2:
                yield ','.join(es), es
                yield ' %s , \t%s ' % es, es
            else:
                yield ', '.join(es), es


def proxies(ctx, job):
    s, t, p = Server(), Server('127.0.0.2'), Server()
    try:
        hosts = [('127.0.0.1', s), ('127.0.0.2', t), ('localhost', s),
                 ('LOCALHOST', s), ('mc.example', None)]
        for text, es in shard(lists(3 if ctx.thorough else 2), job):
            for host, srv in hosts:
                for proxy in (True, False):
                    if srv is None and (not proxy or host in es):
                        continue
                    ctx.case('no_proxy=%r %s %s' % (text, host, proxy), routed,
                             ctx, text, es, host, srv, p, proxy)
    finally:
        environment()
        for x in (s, t, p):
            x.close()


def routed(ctx, text, es, host, srv, p, proxy):
    environment(no_proxy=text, http_proxy=p.url if proxy else None)
    port = srv.port if srv else 8000
    url = 'http://%s:%d/doc' % (host, port)
    direct = not proxy or host.lower() in es
    for code in (200, 404) if len(es) < 2 else (200,):
        for x in (srv, p):
            if x:
                x.answers.clear()
                x.default = answer(500)
                del x.seen[:]
        if srv:
            srv.answers['/doc'] = answer(code, b'direct')
        p.answers[url] = answer(code, b'proxy')
        want = (b'direct' if direct else b'proxy') if code == 200 else None
        fetched(ctx, url, want, ('data', 'stream') if len(es) < 2 else ('data',))
        check(bool(p.seen) is not direct, 'asked the proxy', not direct, p.seen)
        if srv:
            check(bool(srv.seen) is direct, 'asked the host', direct, srv.seen)
    ctx.outcome('direct' if direct else 'proxy')


def hops(ctx, job):
    """Redirections between hosts: each one is asked directly or through the
    proxy as the list says for it."""
    s, t, p = Server(), Server('127.0.0.2'), Server()
    hosts = [('127.0.0.1', s), ('127.0.0.2', t), ('localhost', s)]
    try:
        for es in itertools.chain.from_iterable(itertools.combinations(
                ('127.0.0.1', '127.0.0.2', 'localhost', '127.0.0'), k)
                for k in range(4)):
            for n in (2, 3):
                for way in itertools.product(hosts, repeat=n):
                    for code in (301, 302, 303, 307) if n == 2 else (302,):
                        for proxy in (True, False):
                            ctx.case('%r %r %d %s' % (
                                es, [h for h, x in way], code, proxy), hopping,
                                ctx, es, way, code, proxy, s, t, p)
    finally:
        environment()
        for x in (s, t, p):
            x.close()


def hopping(ctx, es, way, code, proxy, s, t, p):
    environment(no_proxy=','.join(es), http_proxy=p.url if proxy else None)
    for x in (s, t, p):
        x.answers.clear()
        x.default = answer(500)
        del x.seen[:]
    urls = ['http://%s:%d/%d' % (h, x.port, i) for i, (h, x) in enumerate(way)]
    want = []
    for i, (h, x) in enumerate(way):
        direct = not proxy or h in es
        for y, key, name in ((x, '/%d' % i, b'direct'), (p, urls[i], b'proxy')):
            y.answers[key] = answer(200, name) if i + 1 == len(way) else answer(
                code, b'', headers=[('Location', urls[i + 1])])
        want.append((x, '/%d' % i) if direct else (p, urls[i]))
    fetched(ctx, urls[0], b'direct' if want[-1][0] is not p else b'proxy',
            ('data',))
    for x in (s, t, p):
        w = [('GET', k) for y, k in want if y is x]
        check(x.seen == w, 'requests of ' + ('the proxy' if x is p else x.url),
              w, x.seen)
    ctx.outcome('%d direct' % sum(y is not p for y, k in want))


def run(ctx):
    globals()[base(ctx.job)](ctx, ctx.job)
