"""C23: concurrent requests. Specification Isolation; TLC enumerates interleavings (IsolationMC) that are played in virtual time
against the real handler, and many requests are fired at the real server in parallel. Both kinds of traces are judged by TLC
(IsolationTrace)."""
import base64, gzip, hashlib, hmac, json, random
import vv, wire
from check_session import b64u

KEY = b'0123456789012345678901234567890123456789'
STEP = 100


def jws(tag, good=True):
    s = b64u('{"alg":"HS256","typ":"JWT"}') + '.' + b64u('{"sub":"user%d"}' % tag)
    return 'Bearer ' + s + '.' + b64u(hmac.new(KEY if good else b'x' * 40, s.encode(), hashlib.sha256).digest())


def mark(t):
    return 'mk%dx' % t


def make(rng, tag, secure, big):
    """a request of its own: (method, target, headers, body, record of the specification, gzip answers?)"""
    kind = rng.choice(['/p', '/p', '/pol', '/three', '/tr', '/root'] + (['/sec', '/sec', '/secbad'] if secure else []) + ['none', '/unmapped', 'large', 'illegal'] * (rng.random() < 0.4))
    method = rng.choice(['GET', 'PUT', 'DELETE', 'GET', 'OPTIONS', 'HEAD'])
    n = rng.choice([0, 0, 40, 900])
    body = (mark(tag) * 200 + str(rng.random()))[:n].encode() if method == 'PUT' else b''
    tail = '/%s/%d?m=%s' % (mark(tag), tag, mark(tag))
    verdict = 0
    hdrs = [['X-Vtag', str(tag)], ['X-Mine', mark(tag)], ['Cookie', 'c=%s' % mark(tag)]]
    tok = ''
    if kind == 'none':
        target, verdict = '/other' + tail, 404
    elif kind == '/unmapped':
        target, verdict = '/unmapped' + tail, 503
    elif kind == 'large':
        target, verdict, method = '/p' + tail, 413, 'PUT'
        body = (mark(tag) * 200).encode() + b'x' * 1000
    elif kind == 'illegal':
        target, verdict, method = '/p' + tail, 400, 'PATCH'
    elif kind == '/secbad':
        target, verdict = '/sec' + tail, 401
        tok = jws(tag, False)
    else:
        target = kind + tail
    if kind == '/sec':
        tok = jws(tag)
    elif kind != '/secbad' and rng.random() < 0.5:
        tok = 'Custom ' + mark(tag)
    if tok:
        hdrs.append(['Authorization', tok])
    up = {'/tr': '/x/y' + tail, '/root': tail}.get(kind, target)
    rid = ''
    if rng.random() < 0.5:
        rid = 'id-%s' % mark(tag)
        hdrs.append(['X-Request-Id', rid])
    if rng.random() < 0.5:
        hdrs.append(['Accept-Encoding', 'gzip'])
    elif rng.random() < 0.7:
        hdrs.append(['Accept-Encoding', 'identity'])
    rec = dict(path=method + ' ' + up, id=rid, token=tok, sum=wire.digest(body), verdict=verdict)
    return method, target, hdrs, body, rec


def respond(rng, tag, method, fail, big):
    st = rng.choice([500, 503]) if fail else rng.choice([200, 200, 200, 201, 302, 404, 204, 304])
    n = rng.choice([0, 30, 3000] + ([60000, 200000] if big else []) if big != 'heavy' else [30, 300000, 2000000, 2000000, 5000000])
    plain = ((mark(tag) + '%06d' % rng.randrange(10 ** 6)) * (n // 9 + 1))[:n].encode()
    if st in (204, 304):
        plain = b''
    raw = plain
    hdrs = [['X-Up-Mark', str(tag)], ['X-Up-Other', mark(tag)], ['Set-Cookie', 's=' + mark(tag)]]
    if st not in (204, 304) and rng.random() < (0.4 if big != 'heavy' else 0.8):
        raw = gzip.compress(plain, 1 if n > 10 ** 5 else 9, mtime=0)
        hdrs.append(['Content-Encoding', 'gzip'])
    rec = dict(status=st, sum='' if method == 'HEAD' else wire.digest(plain), mark=tag)
    return st, hdrs, raw, rec


def virtual(c, rng, orders):
    cases = []
    for i, order in enumerate(orders):
        tags = sorted({r for _, r in order})
        reqs = {}
        for t in tags:
            method, target, hdrs, body, rec = make(rng, t, False, False)
            reqs[t] = dict(Tag=t, Method=method, Target=target, Headers=hdrs, Body=vv.b64(body), Rec=rec, Ans=[])
        last = {}
        for k, (what, t) in enumerate(order):
            now = (k + 1) * STEP
            q = reqs[t]
            if what == 'come':
                q['At'] = now
            elif what == 'head':
                st, hdrs, raw, rec = respond(rng, t, q['Method'], False, False)
                q['Ans'].append(dict(Hdr=now - last[t], Status=st, Headers=hdrs, Data=vv.b64(raw if q['Method'] != 'HEAD' else b''), Rec=rec))
            else:
                a = q['Ans'][-1]
                a['Body'] = now - last[t]
                if what == 'fail':
                    st, hdrs, raw, rec = respond(rng, t, q['Method'], True, False)
                    a.update(Status=st, Headers=hdrs, Data=vv.b64(raw if q['Method'] != 'HEAD' else b''), Rec=rec)
            last[t] = now
        cases.append(dict(Id=i, M=3, Span=(len(order) + 2) * STEP, Reqs=[reqs[t] for t in tags]))
    drv = vv.build_driver(['gateway.go', 'isolation.go'])
    recs = vv.run_driver(drv, 'isolation', cases)
    ts = []
    for cs, r in zip(cases, recs):
        if r is None:
            continue
        if isinstance(r, vv.Crash):
            ts.append(dict(id=cs['Id'], conf='', ev=[dict(e='crash', r=0, v=r.text[-500:])]))
        else:
            ts.append(dict(id=cs['Id'], conf=r['conf'], ev=r['ev']))
    return cases, ts


def config():
    jwt = '  hs:\n    alg: HS256\n    key: "%s"\n' % KEY.decode()
    pol = '  ab:\n    - label: blue\n      weight: 0.3\n    - label: green\n      weight: 0.7\n' \
          '  three:\n    - label: green\n      weight: 0.5\n    - label: blue\n      weight: 0.2\n    - label: red\n      weight: 0.3\n'
    rt = lambda p, r, **k: '  - path: %s\n    resource: %s\n' % (p, r) + ''.join('    %s: %s\n' % x for x in k.items())
    routes = rt('/p', 'up') + rt('/unmapped', 'nothing') + rt('/pol', 'col', policy='ab') + rt('/three', 'col', policy='three') + \
        rt('/root', 'up', transform='/') + rt('/tr', 'up', transform='/x/y') + rt('/sec', 'up', jwt='hs')
    return wire.yaml(routes, wire.resource('up', 0) + wire.resource('col', (0, ['green']), (1, ['blue', 'red'])), jwt=jwt, policies=pol, max_body=1000, attempts=3,
                     upextra='    poolSize: 100\n')


def parallel(c, rng, servers, conns, per, big=True):
    cases, metas = [], []
    for k in range(servers):
        recs, cs, tag = {}, [], 0
        for _ in range(conns):
            conn = dict(Reqs=[])
            for _ in range(per):
                tag += 1
                method, target, hdrs, body, rec = make(rng, tag, True, big)
                if rec['verdict'] == 413:
                    continue    # ends the connection
                raw = wire.head('%s %s HTTP/1.1' % (method, target), [['Host', 'h.example']] + hdrs + ([['Content-Length', str(len(body))]] if body else [])) + body
                script, ans = [], []
                for fail in [True] * rng.choice([0, 0, 0, 1, 2]) + [False]:
                    st, uh, data, a = respond(rng, tag, method, fail, big)
                    cl = [] if st in (204, 304) else [['Content-Length', str(len(data))]]
                    out = wire.head('HTTP/1.1 %d X' % st, uh + cl) + (b'' if method == 'HEAD' or st in (204, 304) else data)
                    script.append(dict(Raw=[dict(B=vv.b64(out[:len(out) // 2])), dict(B=vv.b64(out[len(out) // 2:]), Delay=rng.choice([0, 0, 1, 2]))], Then='keep'))
                    ans.append(a)
                conn['Reqs'].append(dict(Id=tag, Method=method, Raw=[dict(B=vv.b64(raw))], Script=script))
                recs[tag] = dict(rec=rec, ans=ans)
            cs.append(conn)
        cases.append(dict(Id=k, Yaml=config(), Ups=[{}, {}], Conns=cs, Conc=conns, Env={'GOMAXPROCS': rng.choice(['1', '2', '4'])} if big == 'heavy' else {}))
        metas.append(recs)
    out = wire.run(cases, shards=min(servers, 3))
    ts = []
    import re
    marks = lambda *t: [int(x) for x in dict.fromkeys(re.findall(r'mk(\d+)x', ' '.join(t)))]
    hs = lambda h, n: ','.join(v for k, v in h if k == n)
    for cs, m, r in zip(cases, metas, out):
        if not r['listening']:
            raise vv.Broken('server did not start: ' + r['stderr'][-2000:])
        per = {}
        for u in r['ups']:
            per.setdefault(u['req'], []).append(u)
        for part in range(0, len(r['reqs']), 150):
            ev = []
            for s in r['reqs'][part:part + 150]:
                t = s['id']
                ev.append(dict(e='come', r=t, v=m[t]['rec']))
                for k, u in enumerate(per.pop(t, [])):
                    ev.append(dict(e='up', r=t, v=dict(path=u['method'] + ' ' + u['target'], id=hs(u['hdrs'], 'x-request-id'), token=hs(u['hdrs'], 'authorization'),
                                                       sum=u['sum'], marks=marks(u['target'], *[v for _, v in u['hdrs']]))))
                    ev.append(dict(e='ans', r=t, v=m[t]['ans'][k] if k < len(m[t]['ans']) else dict(status=-1, sum='', mark=-1)))
                if not s['resp']:
                    ev.append(dict(e='bad', r=t, v=s['err']))
                    continue
                p = s['resp']
                ce = hs(p['hdrs'], 'content-encoding')
                mk = [v for k, v in p['hdrs'] if k == 'x-up-mark']
                ev.append(dict(e='resp', r=t, v=dict(status=p['status'], id=hs(p['hdrs'], 'x-request-id'), sum=p['gzsum'] if ce == 'gzip' and p['len'] else p['sum'],
                                                     mark=0 if not mk else int(mk[0]) if len(mk) == 1 and mk[0].isdigit() else -1,
                                                     marks=marks(*[v for _, v in p['hdrs']], base64.b64decode(p.get('body') or '').decode('latin1')))))
            if part + 150 >= len(r['reqs']):
                for t in per:
                    ev.append(dict(e='stray', r=t, v=0))
                if not r['alive']:
                    ev.append(dict(e='crash', r=0, v=r['stderr'][-800:]))
            ts.append(dict(id=cs['Id'], conf='', ev=ev))
    return cases, ts


def judge(c, what, ts):
    rej, runs = vv.validate_traces('IsolationTrace', 'IsolationTrace.cfg', ts)
    c.count(*runs)
    c.traces += len(ts) - len(rej)
    for k in sorted(rej):
        t, pre = ts[k], rej[k]
        nxt = t['ev'][pre - 1] if 0 < pre <= len(t['ev']) else 'end'
        r = nxt['r'] if isinstance(nxt, dict) else 0
        c.violation('IsolationTrace rejects event %d (%s): %s' % (pre, what, json.dumps(nxt)[:700]),
                    dict(of_this_request=[e for e in t['ev'] if e['r'] == r], conf=t['conf'], trace=t['ev'] if len(t['ev']) < 60 else None))
    return rej


def run(c):
    rng = random.Random(vv.SEED * 7907 + 23)
    orders = []
    for n, f in ((2, 1), (3, 0)) + (((3, 1),) if vv.THOROUGH else ()):
        r = vv.model_check('IsolationMC', 'IsolationMC.cfg', subst={'@N@': str(n), '@FAILS@': str(f)}, timeout=800)
        c.count(r)
        orders.append([json.loads(x) for x in r.lines('ORDER')])
    pick = [o for os_ in orders[:2] for o in os_ for _ in range(2 if not vv.THOROUGH else 20)]
    if vv.THOROUGH:
        rng.shuffle(orders[2])
        pick += orders[2][:20000]
    # larger ones: the steps of several small orders shuffled into each other
    for _ in range(150 if not vv.THOROUGH else 3000):
        parts, base = [], 0
        for _ in range(rng.choice([2, 3, 4])):
            o = rng.choice(orders[rng.randrange(2)])
            parts.append([[w, r + base] for w, r in o])
            base += max(r for _, r in o)
        mix = []
        while any(parts):
            p = rng.choice([p for p in parts if p])
            mix.append(p.pop(0))
        pick.append(mix)
    cases, ts = virtual(c, rng, pick)
    judge(c, 'virtual time', ts)
    c.sample(dict(order=pick[0], trace=ts[0]['ev'][:6]))
    wire.bins()
    pc, ts = parallel(c, rng, 6 if not vv.THOROUGH else 40, 64, 12)
    judge(c, 'in parallel', ts)
    hc, ts = parallel(c, rng, 3 if not vv.THOROUGH else 30, 32, 6, 'heavy')
    judge(c, 'in parallel, large', ts)
    pc += hc
    c.extra.update(interleavings=len(pick), parallel_requests=sum(len(x['Reqs']) for p in pc for x in p['Conns']))
    c.assumptions += ['net/http and the Go transport are trusted', 'interleavings inside of handlers are sampled by parallel load']
