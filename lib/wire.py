"""Building blocks for black box runs of the real server with the wire driver."""
import base64, gzip, hashlib, json, os, random, subprocess
import vv, words

_bins = {}


def bins():
    if not _bins:
        _bins['srv'] = vv.build_server()
        _bins['wire'] = vv.build_wire()
    return _bins


def run(cases, shards=None, timeout=800):
    b = bins()
    for c in cases:
        c.setdefault('Bin', b['srv'])
    return vv.run_driver(b['wire'], 'wire', cases, shards=shards, timeout=timeout)


def certs(specs):
    b = bins()
    p = subprocess.run([b['wire']], input=json.dumps(specs), env={'VV_CERTS': '1'}, stdout=subprocess.PIPE, text=True)
    if p.returncode != 0:
        raise vv.Broken('certificates could not be made')
    return json.loads(p.stdout)


YEAR = 365 * 86400
_chain = {}


def server_chain():
    """A certificate, its key, and the CA that signed it."""
    if not _chain:
        c = certs([dict(Name='ca', CN='verif root', CA=True, Key='p256', From=-86400, Until=YEAR),
                   dict(Name='leaf', Issuer='ca', CN='proxy.example', DNS=['proxy.example'], Key='rsa', From=-86400, Until=200 * 86400)])
        _chain.update(cert=c['leaf']['Cert'] + c['ca']['Cert'], key=c['leaf']['Key'])
    return _chain


def digest(b):
    return hashlib.sha1(b).digest()[:8].hex() if b else ''


def indent(t, n):
    return ''.join(' ' * n + l + '\n' for l in t.strip().split('\n'))


def yaml(routes, resources, policies='', jwt='', max_body=None, attempts=1, read=20, rt=30, tls=False, idle=None, dread=None, upextra=''):
    y = 'connection:\n  downstream:\n    port: ${PORT}\n    mode: %s\n' % ('TLS' if tls else 'HTTP')
    y += '    roundTripTimeoutSeconds: %d\n' % rt
    if max_body is not None:
        y += '    maxBodyBytes: %d\n' % max_body
    if idle:
        y += '    idleTimeoutSeconds: %d\n' % idle
    if dread:
        y += '    readTimeoutSeconds: %d\n' % dread
    if tls:
        ch = server_chain()
        y += '    cert: |\n' + indent(ch['cert'], 6) + '    key: |\n' + indent(ch['key'], 6)
    y += '  upstream:\n    maxAttempts: %d\n    readTimeoutSeconds: %d\n' % (attempts, read) + upextra
    if policies:
        y += 'policies:\n' + policies
    if jwt:
        y += 'jwt:\n' + jwt
    y += 'routes:\n' + routes + 'resources:\n' + resources
    return y


def resource(name, *ups, **kw):
    y = '  %s:\n' % name
    for u in ups:
        labels = ''
        up = u
        if isinstance(u, tuple):
            up, ls = u
            labels = '      labels:\n' + ''.join('        - %s\n' % l for l in ls)
        y += '    -\n' + labels + '      url:\n        scheme: %s\n        host: %s\n        port: "${UP%d}"\n'.replace('"', '') % (
            kw.get('scheme', 'http'), kw.get('host', '127.0.0.1'), up)
    return y


def split(rng, raw, maxparts=4):
    """raw bytes as fragments"""
    n = rng.choice([1, 1, 1, 2, maxparts])
    cuts = sorted({rng.randrange(1, len(raw)) for _ in range(n - 1)}) if len(raw) > 1 else []
    r, p = [], 0
    for k in cuts + [len(raw)]:
        r.append(dict(B=vv.b64(raw[p:k]), Delay=rng.choice([0, 0, 1, 3]) if p else 0))
        p = k
    return r


def chunked(rng, body, sizes=None):
    out, p = b'', 0
    while p < len(body):
        n = rng.choice([1, 7, 100, 4096, len(body)])
        c = body[p:p + n]
        out += b'%x\r\n' % len(c) + c + b'\r\n'
        p += len(c)
        if len(out) > 200000:
            c = body[p:]
            if c:
                out += b'%x\r\n' % len(c) + c + b'\r\n'
            break
    return out + b'0\r\n\r\n'


def head(line, hdrs):
    return (line + '\r\n' + ''.join('%s: %s\r\n' % (k, v) for k, v in hdrs) + '\r\n').encode()


def low(hdrs):
    """headers as the specification sees them: lower case names, trimmed values"""
    return [[k.lower(), v.strip(' \t')] for k, v in hdrs]


NAMES = ['X-Alpha', 'x-beta', 'X-GAMMA', 'Accept', 'Accept-Language', 'Authorization', 'Cookie', 'Referer', 'X-Forwarded-For', 'Via',
         'If-None-Match', 'X_Under', 'X-1', 'Origin', 'Cache-Control', 'X-Request-Idx', 'Forwarded', 'DNT', 'Content-Language', 'X-Dates',
         'Range', 'If-Modified-Since', 'If-Match', 'If-Range', 'Accept-Charset', 'Prefer', 'X-Forwarded-Proto', 'X-Forwarded-Host', 'X-Real-IP', 'X-Api-Key',
         'X-CSRF-Token', 'X-HTTP-Method-Override', 'Traceparent', 'Sec-Fetch-Mode', 'Content-MD5', 'Digest', 'Max-Forwards', 'From', 'Warning', 'Early-Data',
         'Content-Disposition', 'X-Server', 'Datex', 'A', 'X-Requested-With', 'Save-Data', 'X-Long-' + 'n' * 60, 'X.Dot', "X'Tick", 'X~Tilde', 'Idempotency-Key']
UNAMES = ['X-Up', 'x-up-two', 'Set-Cookie', 'ETag', 'Cache-Control', 'Link', 'Vary', 'WWW-Authenticate', 'X-Frame-Options', 'Location',
          'Access-Control-Allow-Origin', 'X-Powered-By', 'Content-Language', 'Expires', 'Last-Modified', 'Retry-After', 'X-Serverx', 'Age',
          'Content-Disposition', 'Content-Security-Policy', 'X-Content-Type-Options', 'Accept-Ranges', 'Content-Location', 'Allow', 'Alt-Svc', 'P3P', 'Refresh',
          'Server-Timing', 'SourceMap', 'Tk', 'Warning', 'X-Cache', 'Via', 'Clear-Site-Data', 'NEL', 'Set-Cookie2', 'Content-MD5', 'Digest', 'Proxy-Status', 'Status',
          'X-UA-Compatible', 'Pragma', 'Referrer-Policy', 'X-XSS-Protection', 'Permissions-Policy', 'X-Rate-Limit', 'A', 'X.Dot', 'X-Long-' + 'n' * 60]
VALUES = ['1', 'a b c', 'a, b,  c', '"quoted, string"', 'k=v; Path=/; HttpOnly', '', 'ünïcödé ✓', 'x' * 300, 'tab\tinside', '%20%0d%0a', '=?;:@&',
          'Mon, 01 Jan 2001 00:00:00 GMT', '<script>', '\\back\\slash', '0', 'null', '{"a":[1,2]}', "it's", '*', 'W/"etag"',
          'y' * 3000, 'true', 'false', 'none', 'identity', 'gzip', 'close', 'keep-alive', 'chunked', '-', '-1', '1e9', 'a=1&b=2', 'text/html;q=0.9, */*;q=0.1', ',', ';', '""', 'Basic dTpw',
          'Bearer abc.def.ghi', 'bytes=0-1', 'no-cache, no-store', 'a' * 255, '1' * 64, '\u00e9', 'x=y; x=z', 'C:\\dir', '[::1]:80', 'max-age=0', 'j8a']


# what some give a meaning to
NATURAL = [['X-Request-Debug', 'true'], ['X-REQUEST-DEBUG', 'TRUE'], ['X-HTTP-Method-Override', 'POST'], ['X-HTTP-Method-Override', 'GET'], ['X-Http-Method', 'DELETE'], ['X-Method-Override', 'PATCH'],
           ['Cache-Control', 'no-cache'], ['Cache-Control', 'no-transform'], ['Prefer', 'respond-async, wait=1'], ['Max-Forwards', '0'], ['X-Forwarded-Proto', 'https'],
           ['X-Forwarded-For', '10.1.2.3, 10.4.5.6'], ['X-Real-IP', '10.1.2.3'], ['X-Forwarded-Host', 'evil.example'], ['X-Original-URL', '/other'], ['X-Rewrite-URL', '/other'], ['X-Forwarded-Prefix', '/x'],
           ['Forwarded', 'for=10.1.2.3;proto=https;host=x'], ['Early-Data', '1'], ['Purpose', 'prefetch'], ['Upgrade-Insecure-Requests', '1'], ['X-Request-Timeout', '1'], ['Grpc-Timeout', '1S'], ['X-Retry', '0'],
           ['X-No-Retry', 'true'], ['X-Attempt', '2'], ['X-Correlation-Id', 'c0'], ['Request-Id', 'r0'], ['X-B3-TraceId', '0af7651916cd43dd'], ['Traceparent', '00-0af7651916cd43dd8448eb211c80319c-b7ad6b7169203331-01'],
           ['Range', 'bytes=0-0'], ['If-None-Match', '*'], ['X-Requested-With', 'XMLHttpRequest'], ['Origin', 'null'], ['Sec-WebSocket-Key', 'dGhlIHNhbXBsZSBub25jZQ=='], ['X-Cluster-Client-Ip', '10.1.2.3'],
           ['True-Client-IP', '10.1.2.3'], ['CF-Connecting-IP', '10.1.2.3'], ['X-Accel-Buffering', 'no'], ['X-Client-Cert', 'x'], ['Save-Data', 'on'], ['Idempotency-Key', 'k0'], ['X-Scheme', 'https'], ['Front-End-Https', 'on'],
           ['X-Debug', '1'], ['X-Trace', 'true'], ['X-Policy', 'blue'], ['X-Label', 'green'], ['X-Version', '2'], ['Content-MD5', 'x'], ['Accept', '*/*'], ['Accept', 'text/event-stream'], ['Accept', 'application/grpc'],
           ['X-Http-Version', '1.0'], ['A-IM', 'gzip'], ['Accept-Charset', 'utf-8'], ['X-Accept-Encoding', 'gzip'], ['Authorization2', 'Bearer x'], ['X-Authorization', 'Bearer x.y.z'], ['X-Access-Token', 'x.y.z']]
UNATURAL = [['Retry-After', '1'], ['Retry-After', '0'], ['Location', 'http://127.0.0.1:1/elsewhere'], ['Location', '/again'], ['Refresh', '0; url=/'], ['X-Accel-Redirect', '/internal'], ['X-Sendfile', '/etc/passwd'],
            ['Cache-Control', 'no-transform'], ['Cache-Control', 'no-store'], ['Vary', 'Accept-Encoding'], ['Vary', '*'], ['ETag', '"x"'], ['ETag', 'W/"x"'], ['Warning', '110 - "Response is Stale"'], ['Age', '10'],
            ['X-Http-Status', '500'], ['X-Retry', 'true'], ['X-No-Compression', '1'], ['Accept-Ranges', 'bytes'], ['Content-Range', 'bytes 0-1/2'], ['Content-Transfer-Encoding', 'binary'], ['X-Content-Encoding', 'gzip'],
            ['Uncompressed-Content-Length', '5'], ['X-Uncompressed-Content-Length', '5'], ['X-Original-Content-Length', '5'], ['Content-Disposition', 'attachment; filename="x.gz"'], ['Grpc-Status', '14'], ['X-Application-Error', 'true'],
            ['Link', '</style.css>; rel=preload'], ['Link', '</a>; rel=next', ], ['Alt-Svc', 'clear'], ['Set-Cookie', 'a=b; Domain=example.org; Secure'], ['WWW-Authenticate', 'Bearer error="invalid_token"'],
            ['X-Served-By', 'up1'], ['X-Powered-By', 'PHP'], ['X-Cache', 'HIT'], ['Via', '1.1 varnish'], ['P3P', 'x'], ['Public-Key-Pins', 'x'], ['Expires', '0'], ['Timing-Allow-Origin', '*']]


def random_headers(rng, names, n):
    r = []
    if rng.random() < 0.5:
        r += [list(x) for x in rng.sample(UNATURAL if names is UNAMES else NATURAL, rng.choice([1, 1, 2]))]
    if rng.random() < words.often():
        r += [words.header(rng) for _ in range(rng.choice([1, 1, 2]))]
    if rng.random() < 0.03:
        n = min(words.size(rng, 1, 70), 70)
    if rng.random() < words.sizes_often() / 2:
        r.append(['X-Sized', 'v' * words.size(rng, 1, 20000)])
    for _ in range(n):
        k = rng.choice(names)
        r.append([k, rng.choice(VALUES)])
        while rng.random() < 0.3:
            kk = ''.join(rng.choice([c.lower(), c.upper()]) for c in k) if rng.random() < 0.3 else k
            r.append([kk, rng.choice(VALUES)])
    return r


def body_bytes(rng, n, kind='text'):
    if n == 0:
        return b''
    if kind == 'bin':
        return rng.randbytes(n)
    if kind == 'gz':
        return gzip.compress(rng.randbytes(max(1, n)), mtime=0)
    return bytes(rng.choice(b'abcdefghijklmnopqrstuvwxyz0123456789{}[]":, \n') for _ in range(n)) if n < 3000 else \
        (bytes(rng.choice(b'abcdefghijklmnop{}":,\n') for _ in range(997)) * (n // 997 + 1))[:n]
