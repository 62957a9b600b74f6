"""C13-C17, C25: content of exchanges. Specification Exchange; abstract cases come from TLC (ExchangeMC), are played against
the real server over real connections by the wire driver, and everything observed is judged by TLC (ExchangeTrace)."""
import base64, gzip, json, random
import vv, wire, words

CFG = '''SPECIFICATION MCSpec
CONSTANTS
  Focus = "ALL"
  Methods = {%(methods)s}
  Kinds = {%(kinds)s}
  Framings = {%(framings)s}
  Sizes = {%(sizes)s}
  Aes = {%(aes)s}
  IdModes = {%(ids)s}
  ReqHdrs = {%(hdrs)s}
  Statuses = {%(statuses)s}
  Codings = {%(codings)s}
  AnsSizes = {%(asizes)s}
  AnsHdrs = {%(ahdrs)s}
  Faults = {%(faults)s}
  MaxLimit = 1000
  Attempts = %(attempts)s
  MaxExchanges = 1
  TlsModes = {%(tls)s}
  Dump = TRUE
INVARIANTS I13a I13b I14a I14b I16 I17 Answerable Finishes Passes Fails DumpCases
CHECK_DEADLOCK FALSE
'''
BASE = dict(methods='"GET"', kinds='"proxy"', framings='"none"', sizes='0', aes='"none", "gzip"', ids='"none"', hdrs='"plain"',
            statuses='200', codings='"none"', asizes='0, 5', ahdrs='"plain"', faults='"none"', attempts='1', tls='FALSE')
ALLAE = '"none", "gzip", "browser", "weighted", "upper", "xgzip", "identity", "refuse", "refuse3", "star", "br"'
ALLCE = '"none", "gzip", "GZIP", "xgzip", "identity", "br", "deflate", "custom", "gzipbr", "two", "magic", "magicid"'
STAT = '200, 201, 204, 206, 226, 299, 301, 304, 308, 399, 400, 401, 403, 404, 407, 409, 418, 429, 451, 499, 500, 503'
FAM = {
    'C13': [dict(methods='"POST", "PUT", "DELETE", "GET", "OPTIONS"', statuses='200, 503', framings='"none", "cl", "chunked", "clshort", "badchunk"',
                 sizes='0, 1, 2, 500, 999, 1000, 1001, 1002, 1999, 2001, 5000, 70000, 300000', faults='"none", "refused"', attempts='3',
                 kinds='"proxy"'),
            dict(methods='"POST", "PUT"', framings='"cl", "chunked"', sizes='0, 1, 1000, 1001', kinds='"about", "nomatch", "unauth", "unmapped"')],
    'C14': [dict(methods='"GET", "HEAD"', aes=ALLAE, codings=ALLCE, asizes='0, 1, 2, 3, 18, 5000', statuses='200, 201, 302, 204, 304'),
            dict(methods='"GET", "HEAD", "PATCH"', aes=ALLAE, kinds='"proxy", "about", "nomatch", "badmethod", "unauth", "unmapped"',
                 statuses='404, 418, 503', codings='"none", "gzip", "br"', faults='"none", "cut"'),
            dict(tls='TRUE', aes='"none", "gzip", "identity"', codings='"none", "gzip", "br"', methods='"GET", "HEAD"', asizes='0, 1, 70000', statuses='200, 204, 304'),
            dict(aes='"none", "gzip", "identity"', codings='"none", "gzip", "br", "magic"', asizes='100000, 3000000')],
    'C15': [dict(methods='"GET", "POST", "HEAD"', framings='"none", "cl", "chunked"', sizes='0, 20', hdrs='"plain", "multi", "never"',
                 ahdrs='"plain", "multi", "never"', aes='"none", "gzip", "br"', codings='"none", "gzip", "br"', tls='FALSE, TRUE',
                 statuses='200, 204, 301, 404, 503', attempts='2'),
            dict(methods='"GET", "HEAD", "PATCH"', kinds='"about", "nomatch", "badmethod", "unauth", "unmapped"', tls='FALSE, TRUE',
                 hdrs='"plain", "multi", "never"')],
    'C16': [dict(methods='"GET", "POST", "PUT"', ids='"none", "one", "empty", "two"', statuses='200, 204, 302, 404, 503',
                 faults='"none", "refused", "cut", "mute"', attempts='3', ahdrs='"plain", "never"'),
            dict(methods='"GET", "POST", "PATCH"', framings='"none", "cl", "chunked", "clshort"', sizes='0, 10, 1001', ids='"none", "one", "empty", "two"',
                 kinds='"about", "nomatch", "badmethod", "unauth", "unmapped"', tls='FALSE, TRUE')],
    'C17': [dict(methods='"GET", "HEAD", "POST"', statuses=STAT, codings='"none", "gzip", "br"', aes='"none", "gzip", "refuse", "star"',
                 ahdrs='"multi"', asizes='0, 700'),
            dict(methods='"GET", "POST"', faults='"none", "refused", "cut", "mute"', statuses='500, 599', aes='"none", "gzip"', attempts='2'),
            dict(methods='"GET", "HEAD", "POST", "PUT", "PATCH"', kinds='"about", "nomatch", "badmethod", "unauth", "unmapped"', aes=ALLAE,
                 framings='"none", "cl", "clshort"', sizes='0, 10, 1001', tls='FALSE, TRUE')],
    'C25': [dict(methods='"GET", "POST", "HEAD", "DELETE"', statuses=STAT, faults='"none", "refused", "cut", "mute"', attempts='3', ids='"none", "one"'),
            dict(methods='"GET", "HEAD", "POST", "PATCH", "OPTIONS"', kinds='"about", "nomatch", "badmethod", "unauth", "unmapped"',
                 framings='"none", "cl", "chunked"', sizes='0, 10, 1001', ids='"none", "one"', aes='"none", "gzip"', tls='FALSE, TRUE')],
}
QUICK = dict(C13=4000, C14=6000, C15=4000, C16=2000, C17=5000, C25=2500)

PATHS = dict(proxy=['/p', '/p/a', '/p/%20x', '/p?q=1&r=%2F', '/pppp/y.json', '/p/ü'.encode('utf-8').decode('latin1')][:5], about=['/about'],
             nomatch=['/nope', '/', '/x/p'], unmapped=['/unmapped', '/unmapped/a'], unauth=['/secret', '/secret/a?b'], badmethod=['/p', '/about/not', '/nope'])
AE = dict(none=None, gzip='gzip', browser='gzip, deflate, br', weighted='br;q=1.0, gzip;q=0.001', upper='GZIP', xgzip='x-gzip;q=0.5',
          identity='identity', refuse='gzip;q=0, identity', refuse3='br, gzip; q=0.000', star='*', br='br, deflate;q=0.5')
AEL = dict(none=[], gzip=[['gzip', 1000]], browser=[['gzip', 1000], ['deflate', 1000], ['br', 1000]], weighted=[['br', 1000], ['gzip', 1]],
           upper=[['GZIP', 1000]], xgzip=[['x-gzip', 500]], identity=[['identity', 1000]], refuse=[['gzip', 0], ['identity', 1000]],
           refuse3=[['br', 1000], ['gzip', 0]], star=[['*', 1000]], br=[['br', 1000], ['deflate', 500]])
# other ways to say the same
AE_ALSO = dict(
    none=[([''], []), ([' '], []), ([','], [])],
    gzip=[(['gzip;q=1'], [['gzip', 1000]]), (['gzip;q=1.000'], [['gzip', 1000]]), ([', gzip ,'], [['gzip', 1000]]), (['gzip;q=0.1'], [['gzip', 100]]), (['\tgzip\t'], [['gzip', 1000]]),
          (['gzip ; q=0.8'], [['gzip', 800]]), (['gzip;Q=0.8'], [['gzip', 800]]), (['Gzip'], [['Gzip', 1000]])],
    browser=[(['deflate,gzip'], [['deflate', 1000], ['gzip', 1000]]), (['compress, gzip'], [['compress', 1000], ['gzip', 1000]]), (['gzip,deflate,br,zstd'], [['gzip', 1000], ['deflate', 1000], ['br', 1000], ['zstd', 1000]]),
             (['zstd', 'br', 'deflate', 'gzip;q=0.3'], [['zstd', 1000], ['br', 1000], ['deflate', 1000], ['gzip', 300]]), (['identity', 'gzip'], [['identity', 1000], ['gzip', 1000]])],
    weighted=[(['deflate;q=0.5, br;q=0.9, gzip;q=0.8'], [['deflate', 500], ['br', 900], ['gzip', 800]]), (['br;q=0, gzip'], [['br', 0], ['gzip', 1000]]), (['identity;q=0, gzip;q=0.5'], [['identity', 0], ['gzip', 500]]),
              (['gzip;q=0.01, identity; q=1'], [['gzip', 10], ['identity', 1000]])],
    upper=[(['GZip;q=0.9'], [['GZip', 900]]), (['BR, GZIP'], [['BR', 1000], ['GZIP', 1000]])],
    identity=[(['identity;q=1'], [['identity', 1000]]), (['identity;q=0.5'], [['identity', 500]]), (['Identity'], [['Identity', 1000]])],
    refuse=[(['gzip;q=0'], [['gzip', 0]]), (['gzip;q=0.0'], [['gzip', 0]]), (['br', 'gzip;q=0'], [['br', 1000], ['gzip', 0]]), (['gzip ; q=0 , br'], [['gzip', 0], ['br', 1000]]), (['GZIP;q=0'], [['GZIP', 0]]),
            (['gzip;Q=0'], [['gzip', 0]])],
    br=[(['br'], [['br', 1000]]), (['notgzip'], [['notgzip', 1000]]), (['gzipped, br'], [['gzipped', 1000], ['br', 1000]]), (['pack200-gzip'], [['pack200-gzip', 1000]]), (['g, z, i, p'], [['g', 1000], ['z', 1000], ['i', 1000], ['p', 1000]]),
        (['deflate'], [['deflate', 1000]]), (['zstd;q=1.0'], [['zstd', 1000]]), (['br;x=gzip'], [['br', 1000]]), (['br;q=gzip'], [['br', 1000]])])
CE = dict(none=[], gzip=['gzip'], GZIP=['GZIP'], xgzip=['x-gzip'], identity=['identity'], br=['br'], deflate=['deflate'], custom=['x-enc'],
          gzipbr=['gzip, br'], two=['br', 'x-enc'], magic=[], magicid=['identity'])
REASON = {200: 'OK', 204: 'No Content', 404: 'Not Found'}


def config(tls, attempts, read, limit):
    routes = '  - path: /about\n    resource: about\n  - path: /p\n    resource: up\n  - path: /unmapped\n    resource: nothing\n' \
             '  - path: /secret\n    resource: up\n    jwt: key\n'
    jwt = '  key:\n    alg: HS256\n    key: "0123456789012345678901234567890123456789"\n'
    return wire.yaml(routes, wire.resource('up', 0), jwt=jwt, max_body=limit, attempts=attempts, read=read, tls=tls)


def scale(n, limit):
    """sizes of the model relate to a limit of 1000"""
    if limit == 1000 or n < 500:
        return n
    if 900 < n < 1100:
        return limit + n - 1000
    return n * limit // 1000 if n < 2100 else limit + n


def request_id(rng, i):
    """something a client may call its request"""
    if rng.random() < 0.5:
        return rng.choice(['client-%d', 'XR-%d ü', '{%d}', 'XR-unknown-%d', '%d', '-%d', '"%d"', 'urn:uuid:%d', '%d,b', 'a b %d', '<%d>', '%%%d', '/%d/', 'id=%d;x']) % i
    if rng.random() < 0.2:
        return rng.choice(['none', 'unknown', 'null', '0', '-', 'undefined', 'x', ',', 'None'])
    if rng.random() < words.often() / 2:
        return words.word(rng).strip() or 'x'
    if rng.random() < words.sizes_often():
        return 'i' * words.size(rng, 1, 5000)
    n = rng.choice([1, 2, 8, 16, 31, 32, 33, 36, 40, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 512, 1000, 4000])
    return ''.join(rng.choice('0123456789abcdefABCDEFGHXYZ-_.') for _ in range(n))


def make_request(rng, pid, a, i, ans, limit, tls):
    """one request: (driver request, record for the specification)"""
    target = rng.choice(PATHS[a['kind']])
    if rng.random() < 0.2 and a['kind'] != 'about' and target != '/' and '?' not in target:
        target += rng.choice(['/', '/', '?', '?x=', '?x=1&']) + words.segment(rng)
    if rng.random() < words.sizes_often() / 4 and a['kind'] != 'about':
        target += ('&' if '?' in target else '?') + 'z' * words.size(rng, 1, 5000)
    method = a['method'] if a['kind'] != 'badmethod' else 'PATCH'
    if a['kind'] != 'badmethod' and method == 'PATCH':
        method = 'GET'
    hdrs = [['Host', 'proxy.example'], ['X-Vtag', str(i)]]
    rich = pid in ('C15', 'C16')
    if a['hdrs'] == 'multi' or rich:
        hdrs += wire.random_headers(rng, wire.NAMES, rng.choice([1, 3, 8]) if rich else 2)
    if a['hdrs'] == 'never':
        hdrs += [['Date', 'Mon, 01 Jan 2001 00:00:00 GMT'], ['Server', 'client'], ['X-Never', 'x']]
    if rng.random() < 0.3:
        hdrs.append(['User-Agent', rng.choice(['curl/7', 'Mozilla/5.0 (X11)', 'kube-probe/1.2', 'Go-http-client/1.1', 'ELB-HealthChecker/2.0', 'MSIE 6.0', words.word(rng).strip()])])
    if rng.random() < 0.1:
        hdrs.append(['X-Request-Debug', 'true'])
    ael = AEL[a['ae']]
    if a['ae'] in AE_ALSO and rng.random() < 0.6:
        texts, ael = rng.choice(AE_ALSO[a['ae']])
        hdrs += [[rng.choice(['Accept-Encoding', 'accept-encoding', 'ACCEPT-ENCODING']), x] for x in texts]
    elif AE[a['ae']] is not None:
        if a['ae'] == 'browser' and rng.random() < 0.4:
            hdrs += [['Accept-Encoding', 'gzip'], ['accept-encoding', 'deflate, br']]
        else:
            hdrs.append([rng.choice(['Accept-Encoding', 'accept-encoding']), AE[a['ae']]])
    rid = request_id(rng, i)
    if a['id'] != 'none':
        hdrs += {'one': [['X-Request-Id', rid]], 'empty': [['X-REQUEST-ID', '']], 'two': [['x-request-id', rid], ['X-Request-Id', rid + 'b']]}[a['id']]
    elif pid == 'C25' and rng.random() < 0.2:
        hdrs.append(['X-REQUEST-ID', rid])
    if a['framing'] in ('cl', 'chunked') and 0 < a['size'] <= limit and rng.random() < words.sizes_often():
        a = dict(a, size=min(limit, words.size(rng, 1, limit)))
        size = a['size']
    else:
        size = 0
    size = max(size or scale(a['size'], limit), 1 if a['framing'] in ('clshort', 'badchunk') else 0)
    body = wire.body_bytes(rng, size, rng.choice(['text', 'bin', 'bin']))
    f = a['framing']
    if f != 'none':
        hdrs.append(['Content-Type', 'application/octet-stream'])
        if rng.random() < 0.1 and f in ('cl', 'chunked'):
            hdrs.append(['Expect', '100-continue'])
        if rng.random() < 0.1 and pid == 'C15':
            hdrs.append(['Content-Encoding', 'br'])
    rng.shuffle(hdrs)
    line = '%s %s HTTP/1.1' % (method, target)
    half = False
    got = body
    if f == 'none':
        raw = wire.head(line, hdrs)
        got = b''
    elif f == 'cl':
        raw = wire.head(line, hdrs + [['Content-Length', str(size)]]) + body
    elif f == 'chunked':
        raw = wire.head(line, hdrs + [['Transfer-Encoding', 'chunked']]) + wire.chunked(rng, body)
    elif f == 'clshort':
        got = body[:rng.choice([0, size // 2, size - 1])]  # always less than size
        raw = wire.head(line, hdrs + [['Content-Length', str(size)]]) + got
        half = True
    else:
        k = rng.choice([0, size // 2, size])
        got = body[:k]
        raw = wire.head(line, hdrs + [['Transfer-Encoding', 'chunked']]) + wire.chunked(rng, got)[:-5] + rng.choice([b'zz\r\nxx', b'5\r\nabc', b'-1\r\n', b'\r\n\r\n'])
        half = True
    rec = dict(method=method, kind=a['kind'], path=target.split('?')[0], addr='127.0.0.1', hdrs=wire.low(hdrs), ae=[[k.lower(), q] for k, q in ael],
               declared=size if f in ('cl', 'clshort') else -1, broken=half, len=len(got), sum=wire.digest(got))
    return dict(Id=i, Method=method, Raw=wire.split(rng, raw), HalfClose=half, Script=[x for x, _ in ans]), rec


def over_h2(q, r):
    """HTTP/2 has no Expect, and splits and joins cookie fields at will"""
    raw = b''.join(base64.b64decode(f['B']) for f in q['Raw'])
    h, body = raw.split(b'\r\n\r\n', 1)
    lines, seen = [], 0
    for l in h.split(b'\r\n'):
        k = l.split(b':')[0].lower()
        if k == b'expect' or (k == b'cookie' and seen):
            continue
        seen += k == b'cookie'
        lines.append(b'Cookie: a=1; b=2' if k == b'cookie' else l)
    q['Raw'] = [dict(B=vv.b64(b'\r\n'.join(lines) + b'\r\n\r\n' + body))]
    hdrs, seen = [], 0
    for k, v in r['hdrs']:
        if k == 'expect' or (k == 'cookie' and seen):
            continue
        seen += k == 'cookie'
        hdrs.append([k, 'a=1; b=2' if k == 'cookie' else v])
    r['hdrs'] = hdrs


def make_answer(rng, pid, a, tls):
    n = a['size']
    if n > 2 and rng.random() < words.sizes_often():
        n = words.size(rng, 3, 2200000 if rng.random() < 0.1 else 140000)
    plain = wire.body_bytes(rng, n, rng.choice(['text', 'bin']))
    raw = plain
    if a['coding'] in ('gzip', 'GZIP', 'xgzip', 'magic', 'magicid'):
        raw = gzip.compress(plain, rng.choice([1, 6, 9]), mtime=0)
        if rng.random() < 0.1 and n:
            k = n // 2    # two members
            raw = gzip.compress(plain[:k], mtime=0) + gzip.compress(plain[k:], mtime=0)
    elif a['coding'] in ('br', 'deflate', 'custom', 'gzipbr', 'two') and n > 2:
        raw = wire.body_bytes(rng, n, 'bin')
        if rng.random() < 0.3:
            raw = b'\x1f\x8b' + raw[2:]
    ce = [['Content-Encoding', v] for v in CE[a['coding']]]
    hdrs = []
    if rng.random() < 0.7:
        hdrs.append(['Content-Type', rng.choice(['application/json', 'text/html; charset=utf-8', 'application/gzip'])])
    if a['hdrs'] == 'multi' or pid in ('C15',):
        hdrs += wire.random_headers(rng, wire.UNAMES, rng.choice([1, 3, 8]))
    if a['hdrs'] == 'never':
        hdrs += [['Date', 'Mon, 01 Jan 2001 00:00:00 GMT'], ['Server', 'nginx'], ['X-Request-Id', 'upstream-1'], ['X-Never', 'u']]
    if tls and rng.random() < 0.2:
        hdrs.append(['Strict-Transport-Security', 'max-age=1'])
    hdrs += ce
    rng.shuffle(hdrs)
    # the order of the content-encoding fields must survive the shuffle
    vals = iter(CE[a['coding']])
    hdrs = [[k, next(vals)] if k == 'Content-Encoding' else [k, v] for k, v in hdrs]
    st = a['status']
    if rng.random() < 0.4 and st not in (204, 206, 304):
        # any other of its kind
        st = rng.choice([x for x in range(st // 100 * 100, st // 100 * 100 + 100) if x not in (204, 206, 304)]) if rng.random() < 0.5 else rng.choice(
            {2: [200, 201, 202, 203, 205, 207, 208], 3: [300, 301, 302, 303, 305, 307, 308], 4: [400, 401, 402, 403, 404, 405, 406, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 421, 422, 423, 424, 425, 426, 428, 429, 431, 451],
             5: [500, 501, 502, 503, 504, 505, 507, 508, 511]}[st // 100])
    line = 'HTTP/1.1 %d %s' % (st, REASON.get(st, 'Whatever'))
    act = dict(Then='keep')
    rec = dict(status=st, ok=True, late=False, hdrs=wire.low(hdrs), len=len(raw), sum=wire.digest(raw))
    try:
        g = gzip.decompress(raw) if raw else None
    except Exception:
        g = None
    rec.update(gzok=g is not None, gzsum=wire.digest(g) if g else '')
    if a['fault'] == 'refused':
        act = dict(Raw=[dict(B=vv.b64(b'HTTP/1.1 2'))], Then='close')
        rec.update(status=0, ok=False)
        return act, rec
    if a['fault'] == 'mute':
        act = dict(Raw=[], Then='hang')
        rec.update(status=0, ok=False, late=True)
        return act, rec
    if a['fault'] == 'cut':
        out = wire.head(line, hdrs + [['Content-Length', str(len(raw) + 1)]]) + raw
        act['Then'] = 'close'
        rec.update(ok=False)
    elif st in (204, 304):
        out = wire.head(line, hdrs)
    else:
        how = rng.choice(['cl', 'cl', 'chunked', 'eof'])
        if how == 'cl':
            out = wire.head(line, hdrs + [['Content-Length', str(len(raw))]]) + raw
        elif how == 'chunked':
            out = wire.head(line, hdrs + [['Transfer-Encoding', 'chunked']]) + wire.chunked(rng, raw)
        else:
            out = wire.head(line, hdrs + [['Connection', 'close']]) + raw
            act['Then'] = 'close'
    act['Raw'] = wire.split(rng, out)
    return act, rec


def no_body(act_rec, method, rng):
    """answers to HEAD carry no body"""
    act, rec = act_rec
    if act.get('Then') == 'hang' or rec['status'] == 0:
        return act, rec
    raw = b''.join(base64.b64decode(f['B']) for f in act['Raw'])
    h = raw.split(b'\r\n\r\n', 1)[0] + b'\r\n\r\n'
    act['Raw'] = [dict(B=vv.b64(h))]
    if rec['ok'] is False and rec['status']:
        rec['ok'] = True    # nothing to cut short
    return act, rec


DEFAULT_ANS = dict(status=200, ok=True, late=False, hdrs=[['content-length', '2']], len=2, sum=wire.digest(b'ok'), gzok=False, gzsum='')


def build(c, rng, abstract, per_case=30):
    """abstract cases -> server cases. Returns (cases, meta)"""
    groups = {}
    for a in abstract:
        ex = a['script'][0]
        slow = any(x['fault'] == 'mute' for x in ex['ans'])
        groups.setdefault((a['tls'], slow), []).append(ex)
    cases, meta = [], []
    limits = [1000, 1000, 1, 70000] if c.pid == 'C13' else [1000]
    for (tls, slow), exs in sorted(groups.items(), key=lambda kv: (not kv[0][1], kv[0][0])):
        size = 8 if slow else per_case
        for k in range(0, len(exs), size):
            part = exs[k:k + size]
            limit = rng.choice(limits)
            conns, recs = [], {}
            conn = None
            attempts = int(c.attempts)
            for i, ex in enumerate(part):
                ans = []
                for x in ex['ans']:
                    ar = make_answer(rng, c.pid, x, tls)
                    if ex['req']['method'] == 'HEAD':
                        ar = no_body(ar, 'HEAD', rng)
                    ans.append(ar)
                q, r = make_request(rng, c.pid, ex['req'], i, ans, limit, tls)
                r['answers'] = [x for _, x in ans]
                recs[i] = r
                fresh = conn is None or len(conn['Reqs']) > 6 or q['HalfClose'] or r['declared'] > limit or r['len'] > limit
                if fresh:
                    frm = rng.choice(['127.0.0.1', '127.0.0.1', '127.4.5.6', '127.255.1.20'])
                    conn = dict(From=frm, To='127.0.0.1', Reqs=[])
                    if c.pid == 'C25' and rng.random() < 0.2:
                        conn.update(From='::1', To='::1')
                    if tls:
                        conn['Tls'] = dict(Min=0, Max=0, H2=not q['HalfClose'] and rng.random() < 0.5)
                    conns.append(conn)
                r['addr'] = conn['From']
                if tls and conn['Tls']['H2']:
                    over_h2(q, r)
                conn['Reqs'].append(q)
                if fresh and (q['HalfClose'] or r['declared'] > limit or r['len'] > limit):
                    conn = None
            cases.append(dict(Id=len(cases), Yaml=config(tls, attempts, 1 if slow else 20, limit), Ups=[{}], Conns=conns, Conc=1,
                              Logs=c.pid == 'C25'))
            meta.append(dict(recs=recs, cfg=dict(max=limit, M=attempts, tls=tls)))
    return cases, meta


RK = ('status', 'hdrs', 'len', 'sum', 'gzok', 'gzsum', 'json')


def trace(case, m, rec, logs):
    ev = []
    ups = {}
    for u in rec['ups']:
        ups.setdefault(u['req'], []).append(u)
    addr = lambda q: m['recs'][q]['addr']
    if not rec['listening']:
        raise vv.Broken('server did not start: ' + rec['stderr'][-2000:])
    for s in rec['reqs']:
        r = dict(m['recs'][s['id']])
        answers = r.pop('answers')
        ev.append(dict(e='req', v=r))
        for k, u in enumerate(ups.pop(s['id'], [])):
            ev.append(dict(e='up', v={x: u[x] for x in ('method', 'target', 'hdrs', 'len', 'sum', 'whole')}))
            ev.append(dict(e='ans', v=answers[k] if k < len(answers) else DEFAULT_ANS))
        if s['resp']:
            ev.append(dict(e='resp', v={x: s['resp'][x] for x in RK}))
        elif s['err'] == 'eof':
            ev.append(dict(e='drop', v=0))
        else:
            ev.append(dict(e='bad', v=s['err']))
    for k in sorted(ups):
        ev.append(dict(e='stray', v=ups[k][0]['target']))
    if not rec['alive']:
        ev.append(dict(e='crash', v=rec['stderr'][-600:]))
    if logs:
        for l in rec['logs']:
            at = l.get('upAtmpt', '0/0').split('/')
            ev.append(dict(e='log', v=dict(level=l.get('level', ''), status=l.get('dwnResCode', 0), method=l.get('dwnReqMethod', ''),
                                           path=l.get('dwnReqPath', ''), addr=l.get('dwnReqRemoteAddr', ''), id=l.get('X-Request-Id', ''),
                                           attempts=int(at[0]), of=int(at[1]))))
    return dict(id=case['Id'], cfg=m['cfg'], logs=logs, ev=ev)


def judge(c, cases, meta, recs, focus=None, merge=False):
    logs = c.pid == 'C25'
    traces = [trace(cs, m, r, logs) for cs, m, r in zip(cases, meta, recs)]
    owner = list(range(len(traces)))
    if merge:
        # request ids must be unique across server instances, too
        merged = {}
        for t in traces:
            k = json.dumps(t['cfg'], sort_keys=True)
            merged.setdefault(k, dict(id=-1, cfg=t['cfg'], logs=False, ev=[]))['ev'] += [e for e in t['ev']]
        extra = [m for m in merged.values() if len(m['ev']) < 20000]
        owner += [-1] * len(extra)
        traces = traces + extra
    rej, runs = vv.validate_traces('ExchangeTrace', 'ExchangeTrace.cfg', traces, subst={'@FOCUS@': focus or c.pid})
    c.count(*runs)
    c.traces += len(traces) - len(rej)
    for k in sorted(rej):
        t, pre = traces[k], rej[k]
        nxt = t['ev'][pre - 1] if 0 < pre <= len(t['ev']) else 'end of trace: %d log records missing' % sum(
            1 for e in t['ev'] if e['e'] == 'resp')
        hist = t['ev'][max(0, pre - 5):pre]
        c.violation('ExchangeTrace rejects event %d of a server run: %s' % (pre, json.dumps(nxt)[:500]),
                    dict(case=cases[owner[k]] if owner[k] >= 0 else None, matched_prefix=pre, last_events=hist,
                         config=t['cfg']))
    return rej


def run(c):
    rng = random.Random(vv.SEED * 7919 + int(c.pid[1:]))
    want = QUICK[c.pid] * (1 if not vv.THOROUGH else 12)
    fams = FAM[c.pid]
    c.attempts = 1
    total = played = 0
    wire.bins()
    for fi, f in enumerate(fams):
        p = dict(BASE)
        p.update(f)
        r = vv.model_check('ExchangeMC', CFG % p, timeout=700)
        c.count(r)
        abstract = [json.loads(x) for x in r.lines('CASE')]
        total += len(abstract)
        c.attempts = p['attempts']
        k = want * 2 // (3 if fi == 0 else 3 * (len(fams) - 1)) if len(fams) > 1 else want
        pick = list(abstract)
        rng.shuffle(pick)
        mute = [a for a in pick if any(x['fault'] == 'mute' for x in a['script'][0]['ans'])]
        quick = [a for a in pick if not any(x['fault'] == 'mute' for x in a['script'][0]['ans'])]
        sel = quick[:k] + mute[:80 if not vv.THOROUGH else 800]
        if fi == len(fams) - 1 and c.pid == 'C14':
            sel = sel[:60]
        cases, meta = build(c, rng, sel)
        recs = wire.run(cases)
        judge(c, cases, meta, recs, merge=c.pid == 'C16')
        played += len(sel)
        if recs and recs[0]['reqs']:
            c.sample(dict(request=meta[0]['recs'][0], upstream=recs[0]['ups'][:1], client=recs[0]['reqs'][0]))
    c.extra.update(abstract_cases=total, exchanges_played=played)
    c.assumptions += ['net/http and the Go transport are trusted', 'loopback networking']
