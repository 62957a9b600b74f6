"""C24: the upstream connection. Specifications Client (what may be talked to, for how long it is tried, redirects) and Pool (reuse of
connections). Cases come from TLC (ClientMC, PoolMC), are played over real sockets, the traces are judged by TLC. What depends on
real time is reported only if it happens three times in a row."""
import json, random
import vv, wire

SOCK, IDLE = 1, 2
LOCS = [None, '/again', 'http://127.0.0.1:${UP1}/elsewhere', 'http://[::1', '', '//127.0.0.1:${UP1}/x', 'https://127.0.0.1:${UP1}/', 'p?x=%zz', '#', '/p' + 'x' * 2000, 'HTTP://127.0.0.1:${UP1}',
        'ftp://x/', '/ü']


def made():
    return wire.certs([
        dict(Name='ca', CN='trusted root', CA=True, Key='p256', From=-wire.YEAR, Until=wire.YEAR),
        dict(Name='ca2', CN='other root', CA=True, Key='p256', From=-wire.YEAR, Until=wire.YEAR),
        dict(Name='mid', Issuer='ca', CN='mid', CA=True, Key='p256', From=-wire.YEAR, Until=wire.YEAR)] + [
        dict(Name='%s-%s-%s' % (iss, named, timely), Issuer='' if iss == 'self' else iss, CN='127.0.0.1', IP=['127.0.0.1'] if named else ['127.0.0.2'],
             DNS=['proxy.example'], Key='p256', From=-7 * 86400 if timely != 'early' else 86400, Until=-60 if timely == 'late' else 30 * 86400)
        for iss in ('ca', 'ca2', 'mid', 'self') for named in (True, False) for timely in ('yes', 'late', 'early')])


def keypair(rng, certs, u):
    iss = rng.choice(['ca', 'mid']) if u['trusted'] else rng.choice(['ca2', 'self', 'mid-alone'])
    timely = 'yes' if u['timely'] else rng.choice(['late', 'early'])
    k = certs['%s-%s-%s' % (iss.split('-')[0], u['named'], timely)]
    chain = k['Cert'] + (certs['mid']['Cert'] if iss == 'mid' else '')
    return dict(CertPem=chain, KeyPem=k['Key'])


def client_case(rng, certs, a):
    cfg, u = a['cfg'], a['up']
    up = dict(Mode={'up': 'http'}.get(u['mode'], u['mode']))
    if u['tls'] and u['mode'] == 'up':
        up.update(keypair(rng, certs, u))
    y = wire.yaml('  - path: /\n    resource: up\n', wire.resource('up', 0, scheme='https' if u['tls'] else 'http'), attempts=cfg['attempts'], read=10, rt=30,
                  upextra='    socketTimeoutSeconds: %d\n' % SOCK + ('' if cfg['verify'] and rng.random() < 0.5 else '    tlsInsecureSkipVerify: %s\n' % str(not cfg['verify']).lower()))
    reqs, metas = [], {}
    for i in range(8 if u['mode'] == 'up' else 1):
        method = rng.choice(['GET', 'GET', 'POST', 'PUT', 'HEAD', 'DELETE']) if u['mode'] == 'up' or cfg['attempts'] == 1 else rng.choice(['GET', 'PUT'])
        st = rng.choice([200, 300, 301, 301, 302, 302, 303, 304, 305, 307, 307, 308, 308, 399])
        loc = rng.choice(LOCS)
        locs = [] if loc is None else [loc] if rng.random() < 0.9 else [loc, '/second']
        body = b'' if st == 304 or method == 'HEAD' else b'moved'
        out = wire.head('HTTP/1.1 %d X' % st, [['Location', l] for l in locs] + ([] if st == 304 else [['Content-Length', '5']])) + body
        raw = wire.head('%s /p/%d HTTP/1.1' % (method, i), [['Host', 'x'], ['X-Vtag', str(i)]] + ([['Content-Length', '3']] if method in ('POST', 'PUT') else [])) + \
            (b'abc' if method in ('POST', 'PUT') else b'')
        reqs.append(dict(Id=i, Method=method, Raw=[dict(B=vv.b64(raw))], Script=[dict(Raw=[dict(B=vv.b64(out))], Then='keep')]))
        metas[i] = dict(status=st, loc=locs)
    repeat = cfg['attempts'] if u['mode'] != 'up' or True else 1
    case = dict(Yaml=y, Ups=[up, {}], Conns=[dict(Reqs=reqs)], Conc=1, Files={'ca.pem': certs['ca']['Cert']}, Env={'SSL_CERT_FILE': '${DIR}/ca.pem', 'SSL_CERT_DIR': '${DIR}'}, SettleMs=100)
    # requests that may not be repeated are tried once
    tries = {i: cfg['attempts'] if q['Method'] != 'POST' else 1 for i, q in enumerate(reqs)}
    return case, dict(cfg=dict(verify=cfg['verify'], sock=SOCK * 1000, attempts=min(tries.values()) if u['mode'] != 'up' else cfg['attempts']), up=u, recs=metas, tries=tries)


def client_trace(case, m, rec):
    if not rec['listening']:
        raise vv.Broken('server did not start: ' + rec['stderr'][-2000:])
    ports = rec['upports']
    fill = lambda s: (s.replace('${UP0}', str(ports[0])).replace('${UP1}', str(ports[1]))).strip(' \t')
    ev, per = [], {}
    for u in rec['ups']:
        per.setdefault(u['req'], []).append(u)
    for s in rec['reqs']:
        a = m['recs'][s['id']]
        locs = [l.strip(' \t') for l in a['loc']]
        ev.append(dict(e='req', v=0))
        for u in per.pop(s['id'], []):
            ev.append(dict(e='up', v=dict(dest=u['up'] + 1, target=u['target'])))
            ev.append(dict(e='ans', v=dict(status=a['status'], loc=locs)))
        if s['resp']:
            ev.append(dict(e='resp', v=dict(status=s['resp']['status'], loc=[v for k, v in s['resp']['hdrs'] if k == 'location'], ms=s['ms'])))
        else:
            ev.append(dict(e='bad', v=s['err']))
    for k in per:
        ev.append(dict(e='stray', v=per[k][0]['target']))
    if not rec['alive']:
        ev.append(dict(e='crash', v=rec['stderr'][-500:]))
    return dict(cfg=m['cfg'], up=m['up'], ev=ev)


def pool_case(rng, a):
    hold = 250
    conns = [dict(Reqs=[]) for _ in range(max(w['width'] for w in a['plan']))]
    start, i, waves = 300, 0, []
    for w in a['plan']:
        start += {400: 500, 800: 1300, 2500: 3300}[w['pause']]
        waves.append(start)
        for k in range(w['width']):
            body = rng.choice([b'', b'x', b'y' * 5000])
            st = rng.choice([200, 200, 404, 302, 500, 204])
            out = wire.head('HTTP/1.1 %d X' % st, [] if st == 204 else [['Content-Length', str(len(body))]]) + (b'' if st == 204 else body)
            raw = wire.head('GET /%d HTTP/1.1' % i, [['Host', 'x'], ['X-Vtag', str(i)]])
            conns[k]['Reqs'].append(dict(Id=i, Method='GET', At=start, Raw=[dict(B=vv.b64(raw))], Script=[dict(Raw=[dict(B=vv.b64(out), Delay=hold)], Then='keep')]))
            i += 1
        start += hold
    y = wire.yaml('  - path: /\n    resource: up\n', wire.resource('up', 0), upextra='    poolSize: %d\n    idleTimeoutSeconds: %d\n' % (a['size'], IDLE))
    return dict(Yaml=y, Ups=[{}], Conns=conns, Conc=len(conns), SettleMs=rng.choice([400, 1200, 3300])), dict(size=a['size'], idle=IDLE * 1000, widths=[w['width'] for w in a['plan']])


def pool_trace(case, m, rec):
    if not rec['listening']:
        raise vv.Broken('server did not start: ' + rec['stderr'][-2000:])
    conns, per = rec['upconns'], {u['req']: u for u in rec['ups']}
    ev, first, last, bad = [], 0, -1, None
    for w in m['widths']:
        ids = range(first, first + w)
        first += w
        if any(i not in per for i in ids):
            bad = 'unserved request'
            break
        us = [per[i] for i in ids]
        t, end = min(u['at'] for u in us), max(u['end'] for u in us)
        fresh = [c['conn'] + 1 for c in conns if last < c['opened'] <= end]
        if last >= 0:  # just before the wave
            q = min([t] + [c['opened'] for c in conns if c['conn'] + 1 in fresh]) - 20
            ev.append(dict(e='quiet', t=q, open=[c['conn'] + 1 for c in conns if c['opened'] <= q and not 0 <= c['closed'] <= q]))
        ev.append(dict(e='wave', t=t, end=end, n=w, used=sorted({u['conn'] + 1 for u in us}), fresh=fresh))
        last = end
    q = rec['ended']
    if not bad:
        ev.append(dict(e='quiet', t=q, open=[c['conn'] + 1 for c in conns if not 0 <= c['closed'] <= q]))
    if bad or any(not s['resp'] for s in rec['reqs']) or not rec['alive'] or len(rec['ups']) != first:
        ev.append(dict(e='bad', v=[s['err'] for s in rec['reqs']]))
    return dict(size=m['size'], idle=m['idle'], ev=ev)


def play(c, cases, metas, to_trace, module, what, shards):
    """runs cases; only those that are rejected three times in a row are violations"""
    idx = list(range(len(cases)))
    for attempt in range(3):
        for k, i in enumerate(idx):
            cases[i]['Id'] = k
        recs = wire.run([cases[i] for i in idx], shards=min(shards, len(idx)))
        ts = [to_trace(cases[i], metas[i], r) for i, r in zip(idx, recs)]
        rej, runs = vv.validate_traces(module, module + '.cfg', ts)
        c.count(*runs)
        c.traces += len(ts) - len(rej)
        if attempt == 0 and ts:
            c.sample(dict(kind=what, trace=ts[0]['ev'][:6]))
        if not rej:
            return
        vv.log('%s: %d of %d rejected' % (what, len(rej), len(ts)))
        if attempt == 2:
            for k in sorted(rej):
                pre = rej[k]
                nxt = ts[k]['ev'][pre - 1] if 0 < pre <= len(ts[k]['ev']) else 'end'
                c.violation('%s rejects event %d (%s) three times: %s' % (module, pre, what, json.dumps(nxt)[:400]), dict(trace=ts[k], case=cases[idx[k]]))
        idx = [idx[k] for k in sorted(rej)][:40]


def run(c):
    rng = random.Random(vv.SEED * 6007 + 24)
    wire.bins()
    certs = made()
    r = vv.model_check('ClientMC', 'ClientMC.cfg')
    c.count(r)
    ab = [json.loads(x) for x in r.lines('CASE')]
    pick = [a for a in ab for _ in range((2 if a['up']['mode'] == 'up' else 1) * (1 if not vv.THOROUGH else 12))]
    both = [client_case(rng, certs, a) for a in pick]
    play(c, [x for x, _ in both], [m for _, m in both], client_trace, 'ClientTrace', 'contact', 16)
    r = vv.model_check('PoolMC', 'PoolMC.cfg', subst={'@WAVES@': '3'})
    c.count(r)
    plans = [json.loads(x) for x in sorted(set(r.lines('PLAN')))]
    rng.shuffle(plans)
    both = [pool_case(rng, a) for a in plans[:60 if not vv.THOROUGH else 700]]
    play(c, [x for x, _ in both], [m for _, m in both], pool_trace, 'PoolTrace', 'pool', 20)
    c.extra.update(contact_cases=len(pick), pool_plans=len(both), abstract_plans=len(plans))
    c.assumptions += ['real time with tolerances of 0.9 to 1.5 s; reported only if reproduced twice', 'loopback networking', 'the platform verifier of crypto/x509 reads SSL_CERT_FILE']
