"""C06: every request gets exactly one well formed response. Specification Session; requests and upstream answers TLC
enumerates (SessionMC) are made concrete and played over connections against the real server, what comes back on each
connection is judged by TLC (SessionTrace)."""
import base64, gzip, hashlib, hmac, json, random
import vv, wire, words

RT, READ, M = 2, 1, 2
MAX = 1000
HSKEY = b'0123456789012345678901234567890123456789'


def config(tls):
    ch = wire.certs([dict(Name='r', CN='r', Key='rsa', From=-86400, Until=wire.YEAR), dict(Name='e', CN='e', Key='p256', From=-86400, Until=wire.YEAR)])
    jwt = '  hs:\n    alg: HS256\n    key: "%s"\n' % HSKEY.decode()
    jwt += '  rs:\n    alg: RS256\n    key: |\n' + wire.indent(ch['r']['Cert'], 6)
    jwt += '  es:\n    alg: ES256\n    key: |\n' + wire.indent(ch['e']['Cert'], 6)
    routes = '  - path: /about\n    resource: about\n  - path: /proxy\n    resource: up\n  - path: /dead\n    resource: dead\n' \
             '  - path: /unmapped\n    resource: nothing\n' + ''.join('  - path: /%s\n    resource: up\n    jwt: %s\n' % (k, k) for k in ('hs', 'rs', 'es'))
    return wire.yaml(routes, wire.resource('up', 0) + wire.resource('dead', 1), jwt=jwt, max_body=MAX, attempts=M, read=READ, rt=RT, tls=tls)


def b64u(b):
    return base64.urlsafe_b64encode(b if isinstance(b, bytes) else b.encode()).rstrip(b'=').decode()


def token(rng, cred):
    """value of an Authorization header"""
    hdr, claims = '{"alg":"HS256","typ":"JWT"}', '{"sub":"x"}'
    if cred == 'empty':
        return rng.choice(['', 'Bearer', 'Bearer '])
    simple = dict(scheme='Digest abc', lower='bearer a.b.c', one='Bearer abc', two='Bearer abc.def', three='Bearer abc.def.ghi', four='Bearer a.b.c.d',
                  five='Bearer a.b.c.d.e', dots='Bearer ' + '.' * rng.choice([1, 2, 3, 4, 500]), b64='Bearer %%%.$$$.###', zeros='Bearer AAAA.AAAA.AAAA',
                  comma='Bearer a.b.c, Bearer d.e.f', spaces='   Bearer    a.b.c', long='Bearer ' + 'a' * 30000 + '.b.c', ctrl='Bearer \x7f.\xff.\xfe')
    if cred == 'basic':
        return 'Basic ' + base64.b64encode(b'user:pass').decode()
    if cred == 'bytes':
        return 'Bearer ' + ''.join(chr(rng.choice([33, 128, 200, 255, 65])) for _ in range(40))
    if cred in simple:
        return simple[cred]
    hdr = dict(notjson='nope', array='[]', null='null', nohdr='', algnone='{"alg":"none"}', algnum='{"alg":256}', algother='{"alg":"XX99"}',
               kidnum='{"alg":"HS256","kid":5}', kidlong='{"alg":"HS256","kid":"%s"}' % ('k' * 5000), kidpath='{"alg":"HS256","kid":"../../etc/passwd"}',
               crit='{"alg":"HS256","crit":["exp"],"exp":1}', dup='{"alg":"HS256","alg":"none"}', validkid='{"alg":"HS256","kid":"k"}',
               jwkhdr='{"alg":"HS256","jwk":{"kty":"oct","k":"AA"}}', x5c='{"alg":"HS256","x5c":["AAAA"],"x5u":"http://127.0.0.1:1/"}',
               zip='{"alg":"HS256","zip":"DEF"}').get(cred, hdr)
    claims = dict(claimsarray='[1,2]', claimsnull='null', expstring='{"exp":"tomorrow"}', expfloat='{"exp":1.5e9}', expneg='{"exp":-5}',
                  exphuge='{"exp":1e400,"iat":99999999999999999999}', expobject='{"exp":{}}', expnull='{"exp":null,"nbf":null}',
                  iatfuture='{"iat":9999999999}', nbffuture='{"nbf":9999999999}').get(cred, claims)
    s = b64u(hdr) + '.' + b64u(claims)
    sig = hmac.new(HSKEY, s.encode(), hashlib.sha256).digest()
    if rng.random() < 0.3:
        sig = rng.randbytes(rng.choice([64, 256]))
    sig = dict(nosig=b'', sigshort=sig[:5], siglong=sig * 40).get(cred, sig)
    return 'Bearer ' + s + '.' + b64u(sig)


PLACE = dict(proxy='/proxy', dead='/dead', unmapped='/unmapped', hs='/hs', rs='/rs', es='/es', about='/about', nomatch='/other')


def request(rng, i, c):
    target = PLACE[c['route']] + ('' if c['route'] == 'about' else rng.choice(['', '/x', '/a/b?c=d']))
    method, f, o = c['method'], c['framing'], c['odd']
    hdrs = [['Host', 'proxy.example'], ['X-Vtag', str(i)]]
    if rng.random() < 0.3:
        hdrs.append(['Accept-Encoding', 'gzip'])
    if c['cred'] != 'none':
        hdrs.append(['Authorization', token(rng, c['cred'])])
    elif c['route'] in ('hs',) and rng.random() < 0.5:
        hdrs.append(['Authorization', token(rng, 'valid')])
    body = wire.body_bytes(rng, dict(cl=20, chunked=20, trailers=20, extension=20, large=1500, largechunked=1500, huge=400000).get(f, 0), 'bin')
    pay = b''
    if f == 'cl0':
        hdrs.append(['Content-Length', '0'])
    elif f in ('cl', 'large', 'huge'):
        hdrs.append(['Content-Length', str(len(body))])
        pay = body
    elif f != 'none':
        hdrs.append(['Transfer-Encoding', 'chunked'])
        pay = wire.chunked(rng, body)
        if f == 'trailers':
            hdrs.append(['Trailer', 'X-After, X-Checksum'])
            pay = pay[:-2] + b'X-After: 1\r\nX-Checksum: abc\r\n\r\n'
        if f == 'extension':
            pay = b'5;name=value;other="q"\r\n' + body[:5] + b'\r\n' + wire.chunked(rng, body[5:])
    ver = 'HTTP/1.1'
    half = False
    line = None
    lead = b''
    if o in ('http10', 'keep10'):
        ver = 'HTTP/1.0'
        if o == 'keep10':
            hdrs.append(['Connection', 'keep-alive'])
    elif o == 'close':
        hdrs.append(['Connection', 'close'])
    elif o == 'upgrade':
        hdrs += rng.choice([[['Connection', 'Upgrade'], ['Upgrade', 'websocket'], ['Sec-WebSocket-Key', 'dGhlIHNhbXBsZSBub25jZQ=='], ['Sec-WebSocket-Version', '13']],
                            [['Connection', 'Upgrade, HTTP2-Settings'], ['Upgrade', 'h2c'], ['HTTP2-Settings', 'AAMAAABkAARAAAAAAAIAAAAA']]])
    elif o == 'absolute':
        target = 'http://other.example' + target
    elif o == 'userinfo':
        target = 'http://user:pw@other.example' + target
    elif o == 'star':
        target = '*'
        if rng.random() < 0.7:
            method = 'OPTIONS'
    elif o == 'connect':
        method, target = 'CONNECT', rng.choice(['other.example:443', '/proxy', 'other.example'])
    elif o == 'nohost':
        hdrs = hdrs[1:]
    elif o == 'twohosts':
        hdrs.append(['Host', 'second.example'])
    elif o == 'badhost':
        hdrs[0][1] = rng.choice(['a b', 'x\\y', '[::1', '', 'ü', 'a/b?c'])
    elif o == 'ipv6host':
        hdrs[0][1] = '[::1]:80'
    elif o == 'many':
        hdrs += [['X-%d' % k, 'v'] for k in range(300)]
    elif o == 'long':
        hdrs.append(['X-Long', 'v' * 1200000])
    elif o == 'longtarget':
        target = target.split('?')[0] + '?' + 'q' * 60000
    elif o == 'expect':
        hdrs.append(['Expect', '100-continue'])
    elif o == 'otherexpect':
        hdrs.append(['Expect', '200-maybe'])
    elif o == 'tegzip':
        hdrs.append(['Transfer-Encoding', 'gzip'])
    elif o == 'te':
        hdrs += [['TE', 'trailers, deflate;q=0.5'], ['Connection', 'TE, X-Vtagx']]
    elif o == 'empties':
        hdrs.append(['', 'value'])
    elif o == 'crlf':
        lead = b'\r\n'
    elif o == 'fold':
        hdrs.append(['X-Fold', 'a\r\n b'])
    elif o == 'twolengths':
        hdrs += [['Content-Length', '3'], ['Content-Length', '4']]
    elif o == 'bothlengths':
        hdrs += [['Content-Length', '3'], ['Transfer-Encoding', 'chunked']]
    elif o == 'badlength':
        hdrs.append(['Content-Length', rng.choice(['-1', 'x', '1e3', '99999999999999999999', '+5', '0x5'])])
    elif o == 'range':
        hdrs += [['Range', 'bytes=0-0,5-'], ['If-Range', '"x"']]
    elif o == 'query':
        target += ('&' if '?' in target else '?') + rng.choice(['a=%zz', '?', ';', '%', 'a=b&&&=', '//'])
    elif o == 'fragment':
        target += '#frag'
    elif o == 'percent':
        target += '/' + rng.choice(['%2e%2e', '%00', '%ff%fe', '%0d%0a', '%25', '+', '%2F%2f']) if c['route'] != 'about' else ''
    elif o == 'colons':
        target += rng.choice([':80', '@x', ':', '/:x', '/http://y/'])
    elif o == 'ids':
        hdrs += [['X-Request-Id', rng.choice(['', 'x' * 5000, '\x01'.replace('\x01', 'ctl'), '{}', '"'])], ['X-Request-Debug', rng.choice(['true', 'x', ''])]]
    elif o == 'aes':
        hdrs += [['Accept-Encoding', rng.choice([',,,', 'gzip;q=', 'gzip;q=x', ';q=1', 'gzip;;q=0', '*;q=0', 'gzip;q=9', ' ', 'gzip;q=0.0.0', 'a' * 3000])]]
    elif o == 'badtarget':
        target = rng.choice(['proxy', '/pro xy', '/%zz', '\x01', '', '//[', 'http://[::1', '/\x7f'])
    elif o == 'spaces':
        line = '%s  %s   %s' % (method, target, ver)
    elif o == 'noversion':
        line = rng.choice(['%s %s' % (method, target), '%s %s HTTP/x.y' % (method, target), '%s %s HTTP/9.9' % (method, target)])
    elif o == 'http2preface':
        line = 'PRI * HTTP/2.0'
        pay = b'SM\r\n\r\n' + bytes(20)
    elif o == 'junk':
        raw = rng.choice([rng.randbytes(100) + b'\r\n\r\n', b'\r\n\r\n\r\n\r\n', b'\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03' + bytes(50), b':::\r\n\r\n'])
        return dict(Id=i, Method='GET', Raw=wire.split(rng, raw), HalfClose=True, Script=[])
    elif o == 'nul':
        hdrs.append(['X-Nul', 'a\0b'])
    elif o == 'badchunk':
        hdrs = [h for h in hdrs if h[0] not in ('Content-Length', 'Transfer-Encoding')] + [['Transfer-Encoding', 'chunked']]
        pay, half = rng.choice([b'zz\r\n', b'5\r\nabc', b'-1\r\n\r\n', b'FFFFFFFFFFFFFFFFF\r\n', b'5\r\nabcdefgh\r\n0\r\n\r\n']), True
    elif o == 'short':
        hdrs = [h for h in hdrs if h[0] not in ('Content-Length', 'Transfer-Encoding')] + [['Content-Length', '50']]
        pay, half = b'x' * rng.choice([0, 1, 49]), True
    elif o == 'priority':
        hdrs += [['Priority', 'u=1, i'], ['Alt-Used', 'x'], ['Sec-Fetch-Mode', 'navigate']]
    elif o == 'debug':
        hdrs += [['X-Request-Debug', 'true'], ['Max-Forwards', '0'], ['Proxy-Connection', 'keep-alive'], ['Keep-Alive', 'timeout=1']]
    elif o == 'twoauth':
        hdrs += [['Authorization', 'Bearer a.b.c'], ['Authorization', 'Basic x'], ['authorization', '']]
    elif o == 'underscores':
        hdrs += [['X_Request_Id', 'v'], ['x.y', 'v'], ["x!#$%&'*+-.^_`|~", 'v']]
    if rng.random() < 0.2 and len(hdrs) < 100:
        hdrs += wire.random_headers(rng, wire.NAMES, rng.choice([0, 1, 3]))
    if rng.random() < words.often() / 3 and c['route'] != 'about':
        target += rng.choice(['/', '?', '?x=']) + words.segment(rng)
    line = line or '%s %s %s' % (method, target, ver)
    head = (line + '\r\n' + ''.join('%s: %s\r\n' % (k, v) for k, v in hdrs) + '\r\n').encode('latin1', 'replace')
    raw = lead + head + pay
    return dict(Id=i, Method=method, Raw=wire.split(rng, raw) if len(raw) < 100000 else [dict(B=vv.b64(raw))], HalfClose=half, Timeout=12000, Script=[])


def answer(rng, u, head):
    """one upstream answer"""
    def act(raw, then='keep', *more):
        frs = wire.split(rng, raw) if 1 < len(raw) < 100000 else [dict(B=vv.b64(raw))]
        return dict(Raw=frs + [dict(B=vv.b64(b), Delay=d) for b, d in more], Then=then)
    body = wire.body_bytes(rng, rng.choice([3, 50, 3000]) if rng.random() > words.sizes_often() else words.size(rng, 3, 150000), rng.choice(['text', 'bin']))
    sends = not head

    def full(status='200 OK', hdrs=(), b=body, cl=True, then='keep'):
        h = list(hdrs)
        if rng.random() < 0.2:
            h += [x for x in wire.random_headers(rng, wire.UNAMES, rng.choice([0, 1, 3])) if x[0] != 'Location']
        if cl is True:
            h.append(('Content-Length', str(len(b))))
        elif cl is not None and cl is not False:
            h.append(('Content-Length', str(cl)))
        return act(wire.head('HTTP/1.1 ' + status, h) + (b if sends else b''), then)
    gz = gzip.compress(body, mtime=0)
    ce = [('Content-Encoding', 'gzip')]
    if u == 'ok':
        return full()
    if u in ('empty', 'one', 'two'):
        return full(b=body[:dict(empty=0, one=1, two=2)[u]])
    if u == 'gzip':
        return full(hdrs=ce, b=gz)
    if u == 'gzipbad':
        return full(hdrs=ce, b=rng.choice([body, gz[:10] + bytes(20), b'\x1f\x8b' + body, gz[:-4] + b'abcd']))
    if u == 'gzipcut':
        return full(hdrs=ce, b=gz[:rng.choice([1, 5, 9, 12, len(gz) - 1])])
    if u == 'gzipempty':
        return full(hdrs=ce, b=b'')
    if u == 'gzipone':
        return full(hdrs=ce, b=gz[:rng.choice([1, 2])])
    if u == 'nolength':
        return full(cl=None, then='close')
    if u in ('chunked', 'trailers', 'badchunk', 'cutchunk'):
        p = wire.chunked(rng, body)
        h = [('Transfer-Encoding', 'chunked')]
        then = 'keep'
        if u == 'trailers':
            h.append(('Trailer', 'X-T'))
            p = p[:-2] + b'X-T: 1\r\nContent-Length: 5\r\n\r\n'
        if u == 'badchunk':
            p, then = p[:-5] + rng.choice([b'zz\r\n', b'-4\r\n', b'99999999999999999999\r\n', b'\r\n\r\n']), 'close'
        if u == 'cutchunk':
            p, then = p[:-rng.choice([1, 2, 5])], 'close'
        return act(wire.head('HTTP/1.1 200 OK', h) + (p if sends else b''), then)
    if u == 'short':
        return full(cl=len(body) + 1, then='close')
    if u == 'twolengths':
        return full(hdrs=[('Content-Length', str(rng.choice([len(body), 1])))], then='close')
    if u == 'neglength':
        return full(cl=-1, then='close')
    if u == 'badlength':
        return full(cl=rng.choice(['abc', '1e3', '', '+3', '0x3']), then='close')
    if u == 'bothlengths':
        return act(wire.head('HTTP/1.1 200 OK', [('Content-Length', '3'), ('Transfer-Encoding', 'chunked')]) + (wire.chunked(rng, body) if sends else b''), 'close')
    if u == 'hugelength':
        return full(cl=rng.choice([1 << 40, (1 << 63) - 1, 10 ** 30]), then='hang')
    one = lambda s: wire.head('HTTP/1.1 %s Early' % s, [('Link', '</x>; rel=preload')] if rng.random() < 0.5 else [])
    if u == 'interim':
        return act(one(rng.choice([100, 102, 103])) + wire.head('HTTP/1.1 200 OK', [('Content-Length', '0')]))
    if u == 'manyinterim':
        return act(b''.join(one(rng.choice([100, 102, 103, 199])) for _ in range(rng.choice([2, 4, 5, 6, 50]))) + wire.head('HTTP/1.1 200 OK', [('Content-Length', '0')]), 'close')
    if u == 'endlessinterim':
        return act(one(103), 'close', *[(one(103), 100)] * 30)
    if u == 'onlyinterim':
        return act(one(102), rng.choice(['hang', 'close']))
    if u in ('s204body', 's304body'):
        return act(wire.head('HTTP/1.1 %s X' % u[1:4], [('Content-Length', '5')]) + b'hello', 'close')
    if u in ('s204', 's304', 's101', 's100', 's199'):
        h = [('Connection', 'Upgrade'), ('Upgrade', 'websocket')] if u == 's101' else [('ETag', '"x"')] if u == 's304' else []
        return act(wire.head('HTTP/1.1 %s X' % u[1:], h), 'hang' if u in ('s100', 's199', 's101') else 'keep')
    if u == 's1000':
        return full('1000 X', then='close')
    if u == 'sneg':
        return full('-10 X', then='close')
    if u == 'stext':
        return full('abc X', then='close')
    if u[0] == 's' and u[1:].isdigit():
        h = [('WWW-Authenticate', 'Basic')] if u in ('s401',) else [('Upgrade', 'TLS/1.0')] if u == 's426' else []
        return full(u[1:] + ' X', hdrs=h)
    if u == 'garbage':
        return act(rng.randbytes(60) + b'\r\n\r\n', 'close')
    if u == 'html':
        return act(b'<html>bad gateway</html>\r\n\r\n', 'close')
    if u == 'nothing':
        return dict(Raw=[], Then='close')
    if u == 'reset':
        return dict(Raw=[], Then='reset')
    if u == 'resetmid':
        return full(cl=len(body) + 10, then='reset')
    if u == 'hang':
        return dict(Raw=[], Then='hang')
    if u == 'hanghead':
        return act(b'HTTP/1.1 200 OK\r\nX-Y: ', 'hang')
    if u == 'hangbody':
        return full(cl=len(body) + 10, then='hang') if sends else dict(Raw=[], Then='hang')
    if u == 'drip':
        return act(wire.head('HTTP/1.1 200 OK', [('Content-Length', '100')]), 'close', *[(b'x', 100)] * 40) if sends else dict(Raw=[], Then='hang')
    if u == 'longhead':
        return full(hdrs=[('X-Long', 'v' * rng.choice([60000, 900000, 11000000 if rng.random() < 0.2 else 1100000]))], then='close')
    if u == 'manyheads':
        return full(hdrs=[('X-%d' % k, 'v') for k in range(1000)])
    bad = dict(badheader='nocolon', nulheader='X-Nul: a\0b', emptyname=': value', unicode='X-Ü: ü')
    if u in bad:
        return act(('HTTP/1.1 200 OK\r\nContent-Length: 2\r\n%s\r\n\r\n' % bad[u]).encode('utf8') + (b'ok' if sends else b''), 'close')
    if u == 'tegzip':
        return act(wire.head('HTTP/1.1 200 OK', [('Transfer-Encoding', rng.choice(['gzip', 'gzip, chunked', 'identity', 'x']))]) + b'0\r\n\r\n', 'close')
    vers = dict(http10='HTTP/1.0', http20='HTTP/2.0', http3='HTTP/3', preface='PRI * HTTP/2.0\r\n')
    if u in vers:
        return act(wire.head(vers[u] + ' 200 OK', [('Content-Length', '2')]) + (b'ok' if sends else b''), 'close')
    if u == 'badlocation':
        return full('302 Found', hdrs=[('Location', rng.choice(['http://[::1', '%zz', ':', 'http://x:y/', '\x7f']))])
    if u == 'location':
        return full('307 X', hdrs=[('Location', rng.choice(['/proxy', 'http://127.0.0.1:1/', '//x', '']))])
    if u == 'upgrade':
        return full(hdrs=[('Upgrade', 'h2c'), ('Connection', 'Upgrade')])
    if u == 'cookies':
        return full(hdrs=[('Set-Cookie', 'a%d=b; Path=/' % k) for k in range(50)])
    if u == 'surplus':
        return act(wire.head('HTTP/1.1 200 OK', [('Content-Length', '2')]) + (b'ok' if sends else b'') + b'HTTP/1.1 200 OK\r\nContent-Length: 4\r\n\r\nevil')
    if u == 'close':
        return full(hdrs=[('Connection', 'close')], then='close')
    if u == 'keepalive':
        return full(hdrs=[('Keep-Alive', 'timeout=5'), ('Connection', 'keep-alive')])
    if u == 'ownheaders':
        return full(hdrs=[('Server', 'x'), ('Date', 'y'), ('Connection', 'close'), ('X-Request-Id', 'a'), ('X-Request-Id', 'b'), ('Strict-Transport-Security', 'z')], then='close')
    if u == 'encodings':
        return full(hdrs=[('Content-Encoding', x) for x in rng.choice([['br', 'gzip'], [''], ['gzip, gzip'], ['identity', 'gzip'], ['x' * 3000]])])
    if u == 'types':
        return full(hdrs=[('Content-Type', rng.choice(['', 'a/b; c', ';', 'x' * 1000])), ('Content-Type', 'text/plain')])
    if u == 'lf':
        return act(b'HTTP/1.1 200 OK\nContent-Length: 2\n\n' + (b'ok' if sends else b''))
    if u == 'noreason':
        return act(b'HTTP/1.1 200\r\nContent-Length: 2\r\n\r\n' + (b'ok' if sends else b''))
    if u == 'date':
        return full(hdrs=[('Date', 'never'), ('Last-Modified', 'x'), ('Expires', '-1'), ('Age', '-5')])
    raise vv.Broken('no upstream answer ' + u)


H2ODD = {'none', 'range', 'query', 'ids', 'aes', 'many', 'priority', 'longtarget'}


def ends(s):
    return any(s[k] for k in ('close', 'expect', 'upgrade', 'large', 'refuse', 'upclose')) or s['ver'] == 10 or s['len'] > 262144 or not s['valid']


def build(rng, sel):
    """abstract cases -> server cases"""
    cases, metas = [], []
    groups = {}
    for x in sel:
        groups.setdefault((rng.choice([False, False, True]), x['slow']), []).append(x)
    for (tls, slow), xs in groups.items():
        rng.shuffle(xs)
        n = 6 if slow else 60
        for k in range(0, len(xs), n):
            part = xs[k:k + n]
            part.sort(key=lambda x: ends(x['shape']))
            recs, conns = {}, []
            conn = None
            fine = [i for i, x in enumerate(part) if not ends(x['shape'])]
            last = [i for i, x in enumerate(part) if ends(x['shape'])]
            size = max(1, len(fine) // max(1, len(last))) if last else 8
            order = []
            while fine or last:
                m = min(len(fine), rng.choice([1, 2, size, size + 3]))
                run, fine = fine[:m], fine[m:]
                if last:
                    run = run + [last.pop()]
                order.append(run)
            for run in order:
                conn = dict(Reqs=[], Extra=40)
                h2 = tls and all(part[i]['c']['odd'] in H2ODD and part[i]['shape']['valid'] and part[i]['c']['method'] != 'get' for i in run) and rng.random() < 0.6
                if tls:
                    conn['Tls'] = dict(Min=0, Max=0, H2=bool(h2))
                for i in run:
                    x = part[i]
                    q = request(rng, i, x['c'])
                    q['Script'] = [answer(rng, u, x['c']['method'] == 'HEAD') for u in x['c']['ups']]
                    s = dict(x['shape'])
                    if h2:
                        s['ver'] = 20
                        if not all(0x20 <= b < 0x7f for f in q['Raw'] for b in base64.b64decode(f['B']).split(b'\r\n\r\n')[0].replace(b'\r\n', b'')):
                            continue
                    recs[i] = dict(shape=s, c=x['c'])
                    conn['Reqs'].append(q)
                if not h2 and all(part[i]['shape']['valid'] and part[i]['c']['odd'] != 'connect' for i in run) and rng.random() < 0.25:
                    conn['Pipeline'] = True
                if conn['Reqs']:
                    conns.append(conn)
            cases.append(dict(Id=len(cases), Yaml=CONF[tls], Ups=[{}, dict(Mode='closed')], Conns=conns, Conc=1))
            metas.append(recs)
    return cases, metas


CONF = {}


def traces(case, meta, rec):
    if not rec['listening']:
        raise vv.Broken('server did not start: ' + rec['stderr'][-2000:])
    out = []
    for ci, conn in enumerate(case['Conns']):
        seen = {s['id']: s for s in rec['reqs'] if s['conn'] == ci}
        ev = []
        pipe = conn.get('Pipeline')
        ids = [q['Id'] for q in conn['Reqs']]
        shapes = [meta[i]['shape'] for i in ids]
        if pipe:
            ev += [dict(e='req', v=s) for s in shapes]
        for i, s in zip(ids, shapes):
            if not pipe:
                ev.append(dict(e='req', v=s))
            o = seen[i]
            if o['resp']:
                h = o['resp']['hdrs']
                ev.append(dict(e='resp', v=dict(status=o['resp']['status'], cl=sum(1 for k, _ in h if k == 'content-length'),
                                                te=sum(1 for k, _ in h if k == 'transfer-encoding'),
                                                close=any(k == 'connection' and 'close' in v.lower() for k, v in h), ms=o['ms'])))
            elif o['err'] == 'eof' or (not s['valid'] and 'broken pipe' in o['err']):
                ev.append(dict(e='drop', v=0))
            elif o['err'] == 'timeout' and not s['valid']:
                ev.append(dict(e='drop', v=0))
            else:
                ev.append(dict(e='bad', v=o['err']))
        cs = rec['conns'][ci]
        h2 = conn.get('Tls', {}).get('H2')
        if not h2:
            if cs['closed'] >= 0 and any(s['resp'] for s in seen.values()):
                if ev and ev[-1]['e'] == 'resp':
                    ev.append(dict(e='close', v=0))
            ev.append(dict(e='end', v=cs['extra']))
        out.append(dict(id=case['Id'], rt=RT * 1000, ev=ev, conn=ci))
    if not rec['alive'] and rec['exit'] != -9:
        out.append(dict(id=case['Id'], rt=RT * 1000, ev=[dict(e='crash', v=rec['stderr'][-800:])], conn=-1))
    return out


def judge(c, cases, metas, recs):
    ts, own = [], []
    for cs, m, r in zip(cases, metas, recs):
        for t in traces(cs, m, r):
            ts.append({k: v for k, v in t.items() if k != 'conn'})
            own.append((cs, m, t['conn']))
    rej, runs = vv.validate_traces('SessionTrace', 'SessionTrace.cfg', ts)
    c.count(*runs)
    c.traces += len(ts) - len(rej)
    for k in sorted(rej):
        t, pre = ts[k], rej[k]
        cs, m, ci = own[k]
        nxt = t['ev'][pre - 1] if 0 < pre <= len(t['ev']) else 'end'
        ids = [q['Id'] for q in cs['Conns'][ci]['Reqs']] if ci >= 0 else []
        c.violation('SessionTrace rejects event %d of a connection: %s; requests %s' % (pre, json.dumps(nxt)[:400], json.dumps([m[i]['c'] for i in ids])[:900]),
                    dict(trace=t, requests=[m[i] for i in ids], conn=cs['Conns'][ci] if ci >= 0 else None, config=cs['Yaml'], matched_prefix=pre))
    return rej


def run(c):
    rng = random.Random(vv.SEED * 31337 + 6)
    wire.bins()
    CONF.update({False: config(False), True: config(True)})
    c.count(vv.model_check('SessionMC', 'SessionMC.cfg', subst={'@PART@': 'line', '@SENT@': '3' if vv.THOROUGH else '2', '@MORE@': 'Answerable', '@LIVE@': 'Served'}))
    r = vv.model_check('SessionMC', 'SessionMC.cfg', subst={'@PART@': 'cases', '@SENT@': '0', '@MORE@': '', '@LIVE@': ''})
    c.count(r)
    abstract = [json.loads(x) for x in r.lines('CASE')]
    rng.shuffle(abstract)
    slow = [x for x in abstract if x['slow'] and x['c']['route'] == 'proxy']
    fast = [x for x in abstract if not x['slow']]
    # every kind of every dimension at least a few times
    need, sel = {}, []
    for x in fast + slow:
        keys = [(d, x['c'][d]) for d in ('route', 'method', 'framing', 'odd', 'cred')] + [('up', u) for u in x['c']['ups']]
        want = 3 if not x['slow'] else 2
        if any(need.get(k, 0) < want for k in keys):
            for k in keys:
                need[k] = need.get(k, 0) + 1
            sel.append(x)
    pick = {id(x) for x in sel}
    sel += [x for x in fast if id(x) not in pick][:(4000 if not vv.THOROUGH else len(fast))]
    sel += [x for x in slow if id(x) not in pick][:(60 if not vv.THOROUGH else 1200)]
    cases, metas = build(rng, sel)
    recs = wire.run(cases)
    judge(c, cases, metas, recs)
    c.extra.update(abstract_cases=len(abstract), played=len(sel))
    c.sample(dict(requests=metas[0], first=recs[0]['reqs'][:2]))
    c.assumptions += ['net/http is trusted to refuse what it refuses', 'loopback networking']
