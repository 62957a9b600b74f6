"""C07, C08: routes. Specification Route; configurations TLC enumerates (RouteMC) and larger random ones are given to the real
server, one upstream per route, and what reached which upstream is judged by TLC (RouteTrace)."""
import json, posixpath, random, re, urllib.parse
import vv, wire, words

LEGAL = ['GET', 'HEAD', 'OPTIONS', 'TRACE', 'PUT', 'DELETE', 'POST']
ILLEGAL = ['PATCH', 'PROPFIND', 'FOO', 'LINK', 'GETT', 'PURGE', 'SEARCH', 'X']
MCTARGETS = ['/', '/a', '/ab', '/a/b', '/a/', '/b/a/', '/7/a', '/77', '/a?x=/a', '/a/a/a', '/c', '/axb', '/acb/a']


def plain(t):
    return urllib.parse.unquote_to_bytes(t.split('?')[0]).decode('latin1')


def canonical(t):
    p = plain(t)
    if not p.startswith('/'):
        return False
    c = posixpath.normpath(p)
    if c.startswith('//'):
        c = c[1:]
    if p.endswith('/') and c != '/':
        c += '/'
    return c == p


def regex(pat):
    o = ''
    for i in pat:
        k = i['k']
        o += i['s'] if k == 'lit' else {'any': '.', 'star': '.*', 'digits': '[0-9]+', 'end': '$'}[k] if k in ('any', 'star', 'digits', 'end') \
            else '(%s)' % '|'.join(i['a']) if k == 'alt' else '(%s)?' % i['s']
    return o


SEGS = ['a', 'b', 'api', 'v1', 'v2', 'mse6', 'x-y', 'A', 'users', '~j', 'a%20b', 'a%2Fb', '%C3%BC', '77', '0', 'j8a', 'abou', 'aboutx']
NASTY = ['@evil:80/', '.evil.com/', ':81/x', ':443', '.', '..', '%2e%2e/', '/', '/evil.com', '@', '*', ';p=1', ',', '=', '&x', "'", '(', ')', '!', '$',
         '$1', '%24%7B1%7D', '%00', '%0d%0a', '%5c', '%3F', '%23', '%25', '%40', '%2f%2f', 'é'.encode().decode('latin1')[:0], '+', '[', ']', '~', '_']
QUERIES = ['', '', '', '?', '?q=1', '?u=http://evil/', '?a=%2F&b=c%20d', '?/a/b', '??', '?a=b?c', '?x=;y', '?q=/api/v1', '?%zz', '?a+b']


def alnum(rng):
    w = words.segment(rng)
    return w if w.isascii() and w.replace('-', '').isalnum() else 'w'


def rand_path(rng):
    n = rng.choice([0, 1, 1, 2, 2, 3])
    p = '/' + '/'.join(rng.choice(SEGS) if rng.random() > words.often() / 5 else alnum(rng) for _ in range(n))
    if n and rng.random() < 0.3:
        p += '/'
    return p


def rand_pattern(rng):
    """(text, items): items of neighbouring literals are merged"""
    if rng.random() < 0.6:
        p = rand_path(rng)
        items = [dict(k='lit', s=p)]
    else:
        items = [dict(k='lit', s=rand_path(rng))]
        for _ in range(rng.choice([1, 1, 2])):
            k = rng.choice(['any', 'star', 'digits', 'alt', 'opt', 'end'])
            if items[-1]['k'] == 'end':
                break
            if k == 'alt':
                items.append(dict(k='alt', a=rng.sample(SEGS, 2)))
            elif k == 'opt':
                items.append(dict(k='opt', s=rng.choice(SEGS)))
            else:
                items.append(dict(k=k))
            if k != 'end' and rng.random() < 0.5:
                items.append(dict(k='lit', s=rng.choice(['/', '/' + rng.choice(SEGS)])))
    text = regex(items)
    if rng.random() < 0.2 and len(text) > 1 and items[0]['s'] != '/':
        items[0] = dict(k='lit', s=items[0]['s'][1:])
        text = regex(items)
    return text, items


def witness(rng, items):
    o = ''
    for i in items:
        k = i['k']
        o += i['s'] if k == 'lit' else rng.choice('abc9') if k == 'any' else rng.choice(['', 'x', '/x/y', 'abc']) if k == 'star' \
            else rng.choice(['0', '42']) if k == 'digits' else rng.choice(i['a']) if k == 'alt' else rng.choice(['', i['s']]) if k == 'opt' else ''
    return o if o.startswith('/') else '/' + o


def rand_target(rng, routes):
    c = rng.random()
    if c < 0.75 and routes:
        t = witness(rng, rng.choice(routes)['pat'])
        e = rng.random()
        if e < 0.4:
            t += rng.choice(['', '/', 'x', '/']) + (rng.choice(SEGS) if rng.random() > words.often() else words.segment(rng))
            if rng.random() < words.sizes_often() / 4:
                t += 'z' * words.size(rng, 1, 5000)
        elif e < 0.7:
            t += rng.choice(NASTY)
        elif e < 0.8:
            t += t
        elif e < 0.9 and len(t) > 1:
            t = t[:-1]
    elif c < 0.9:
        t = rand_path(rng)
    else:
        t = '/' + rng.choice(NASTY) + rng.choice(NASTY) + rng.choice(SEGS)
    t = re.sub(r'%(?![0-9a-fA-F]{2})', '', t)
    return t + (rng.choice(QUERIES) if rng.random() > words.often() / 2 else '?' + words.segment(rng) + rng.choice(['', '=1', '=' + words.segment(rng)]))


def rand_routes(rng):
    n = rng.choice([1, 2, 3, 4, 6, 8])
    base = [rand_pattern(rng) for _ in range(max(1, n // 2))]
    out, seen = [], set()
    for _ in range(n):
        text, pat = rng.choice(base) if rng.random() < 0.5 else rand_pattern(rng)
        if pat[-1]['k'] == 'lit' and rng.random() < 0.5:
            ext = rng.choice(['/', '/b', 'b', '/v1/'])
            pat = pat[:-1] + [dict(k='lit', s=pat[-1]['s'] + ext)]
            text = regex(pat)
        key = text if text.startswith('/') else '/' + text
        if key in seen or key == '/about':
            continue
        seen.add(key)
        tr = rng.choice(['', '', '', '/', '/t', '/t/', '/a', '/v1/%20', '/$1', '/' + rng.choice(SEGS), key if key.isalnum() else '/'])
        out.append(dict(text=text, pat=pat, transform=tr, dest=len(out) + 1, about=False))
    if rng.random() < 0.3:
        for r in rng.sample(out, 1):
            r['dest'] = 0
    if rng.random() < 0.5:
        out.append(dict(text=rng.choice(['/about', 'about']), pat=[dict(k='lit', s='/about')], transform='', dest=0, about=True))
        out[-1]['pat'] = [dict(k='lit', s=out[-1]['text'])]
    rng.shuffle(out)
    return out


def q(s):
    return "'" + s.replace("'", "''") + "'"


def config(rng, routes, https):
    ys = ''
    for r in routes:
        f = [('path', q(r['text'])), ('resource', 'about' if r['about'] else 'r%d' % r['dest'] if r['dest'] else 'missing')]
        if r['transform']:
            f.append(('transform', q(r['transform'])))
        rng.shuffle(f)
        ys += ''.join('  %s %s: %s\n' % ('-' if i == 0 else ' ', k, v) for i, (k, v) in enumerate(f))
    res = ''
    for d in sorted(r['dest'] for r in routes if r['dest']):
        # further urls of the resource must not be used without a policy
        other = d % max(r['dest'] for r in routes)
        res += wire.resource('r%d' % d, *([d - 1] + ([other] if rng.random() < 0.3 and not https.get(other) else [])),
                             scheme='https' if https.get(d - 1) else rng.choice(['http', 'http', 'HTTP'.lower(), 'http://']))
    if not res:
        res = wire.resource('unused', 0)
    return wire.yaml(ys, res, attempts=2, upextra='    tlsInsecureSkipVerify: true\n')


R503 = dict(Raw=[dict(B=vv.b64(b'HTTP/1.1 503 No\r\nContent-Length: 0\r\n\r\n'))], Then='keep')


def make(c, rng, i, routes, targets):
    https = {k: rng.random() < 0.15 for k in range(12)}
    ch = wire.server_chain()
    ups = [dict(CertPem=ch['cert'], KeyPem=ch['key']) if https[k] else {} for k in range(max([r['dest'] for r in routes] + [1]))]
    case = dict(Id=i, Yaml=config(rng, routes, https), Ups=ups, Conns=[], Conc=1)
    recs = {}
    for k, t in enumerate(targets):
        m = rng.choice(LEGAL if rng.random() < 0.85 else ILLEGAL)
        script = [R503] if rng.random() < 0.1 and m not in ('POST',) else []
        raw = wire.head('%s %s HTTP/1.1' % (m, t), [['Host', rng.choice(['proxy', 'evil.com', '127.0.0.1:1'])], ['X-Vtag', str(k)]] +
                        (wire.random_headers(rng, wire.NAMES, 2) if rng.random() < 0.4 else []))
        if k % 10 == 0:
            case['Conns'].append(dict(Reqs=[]))
        case['Conns'][-1]['Reqs'].append(dict(Id=k, Method=m, Raw=[dict(B=vv.b64(raw))], Script=script))
        recs[k] = dict(v=dict(method=m, target=t, plain=plain(t), canonical=canonical(t)), script=len(script))
    return case, dict(recs=recs, routes=routes)


def trace(case, m, rec):
    if not rec['listening']:
        raise vv.Broken('server did not start: ' + rec['stderr'][-2000:] + case['Yaml'])
    ups = {}
    for u in rec['ups']:
        ups.setdefault(u['req'], []).append(u)
    ev = []
    for s in rec['reqs']:
        r = m['recs'][s['id']]
        ev.append(dict(e='req', v=r['v']))
        for k, u in enumerate(ups.pop(s['id'], [])):
            host = dict(u['hdrs']).get('host')
            right = host == '127.0.0.1:%d' % rec['upports'][u['up']]
            ev.append(dict(e='up', v=dict(dest=u['up'] + 1 if right else -1, target=u['target'])))
            ev.append(dict(e='ans', v=503 if k < r['script'] else 200))
        if s['resp']:
            ev.append(dict(e='resp', v=s['resp']['status']))
        else:
            ev.append(dict(e='bad', v=s['err']))
    for k in ups:
        ev.append(dict(e='stray', v=ups[k][0]['target']))
    if not rec['alive']:
        ev.append(dict(e='crash', v=rec['stderr'][-600:]))
    return dict(routes=m['routes'], ev=ev)


def run(c):
    rng = random.Random(vv.SEED * 104729 + int(c.pid[1:]))
    r = vv.model_check('RouteMC', 'RouteMC.cfg', subst={'@MAX@': '3' if vv.THOROUGH else '2'}, timeout=800)
    c.count(r)
    abstract = [json.loads(x)['routes'] for x in r.lines('CASE')]
    rng.shuffle(abstract)
    cases, meta = [], []
    for rs in abstract[:5000 if vv.THOROUGH else 500]:
        t = list(MCTARGETS) + [rand_target(rng, rs) for _ in range(3)]
        rng.shuffle(t)
        a, b = make(c, rng, len(cases), rs, t)
        cases.append(a)
        meta.append(b)
    for _ in range(6000 if vv.THOROUGH else 800):
        rs = rand_routes(rng)
        if not rs:
            continue
        t = [rand_target(rng, rs) for _ in range(30)] + (['/about', '/about?x', '/about/', '/about/x', '/aboutx', '/%61bout'] if rng.random() < 0.4 else [])
        a, b = make(c, rng, len(cases), rs, t)
        cases.append(a)
        meta.append(b)
    recs = wire.run(cases)
    traces = [trace(a, b, x) for a, b, x in zip(cases, meta, recs)]
    rej, runs = vv.validate_traces('RouteTrace', 'RouteTrace.cfg', traces, subst={'@FOCUS@': c.pid})
    c.count(*runs)
    c.traces += len(traces) - len(rej)
    for k in sorted(rej):
        t, pre = traces[k], rej[k]
        bad = t['ev'][pre - 1] if 0 < pre <= len(t['ev']) else 'end'
        q = [e for e in t['ev'][:pre] if e['e'] == 'req'][-1:]
        c.violation('RouteTrace rejects event %d of a server run: %s for %s' % (pre, json.dumps(bad), json.dumps(q[0]['v'] if q else '')),
                    dict(case=cases[k], routes=t['routes'], matched_prefix=pre, last_events=t['ev'][max(0, pre - 4):pre]))
    for k in range(2):
        c.sample(dict(routes=[x['text'] for x in traces[-1 - k]['routes']], events=traces[-1 - k]['ev'][:6]))
    c.extra.update(abstract_configurations=len(abstract), configurations_played=len(cases), requests=sum(len(m['recs']) for m in meta))
    c.assumptions += ['net/http and regexp are trusted', 'loopback networking']
