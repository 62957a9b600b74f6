"""C26: the time clients may take. Specification Timeouts; plans of clients on both sides of the limits come from TLC (TimeoutsMC), are
played over real connections to the real server, and the traces are judged by TLC (TimeoutsTrace). Real time: only what
happens three times in a row counts."""
import json, random
import vv, wire


def request(rng, i, r):
    how, dur = r['how'], r['dur']
    method = rng.choice(['POST', 'PUT', 'DELETE']) if how != 'head' or rng.random() < 0.3 else 'GET'
    body = wire.body_bytes(rng, rng.choice([2, 50, 3000]), 'text') if method != 'GET' else b''
    chunked = rng.random() < 0.4
    hdrs = [['X-Vtag', str(i)], ['Host', 'h'], ['X-Filler', 'f' * rng.choice([1, 40, 3000])]]
    if body:
        hdrs.append(['Transfer-Encoding', 'chunked'] if chunked else ['Content-Length', str(len(body))])
    head = wire.head('%s /%d HTTP/1.1' % (method, i), hdrs)
    tail = wire.chunked(rng, body) if body and chunked else body
    raw = head + tail
    if how == 'head':
        cuts = [rng.randrange(5, len(head) - 1)]
    elif how == 'body':
        cuts = [len(head) + rng.randrange(0, len(tail))]
    else:
        cuts = sorted(rng.sample(range(4, len(raw)), 6))
    if dur == 0:
        cuts = []
    frags, last = [], 0
    for k, x in enumerate(cuts + [len(raw)]):
        frags.append(dict(B=vv.b64(raw[last:x]), Delay=r['gap'] if k == 0 else dur // len(cuts)))
        last = x
    return dict(Id=i, Method=method, Raw=frags)


def make(rng, plans, read, idle, tls):
    y = wire.yaml('  - path: /\n    resource: up\n', wire.resource('up', 0), tls=tls, idle=idle // 1000, dread=read // 1000)
    conns, i = [], 0
    for p in plans:
        c = dict(Reqs=[], Idle=max(read, idle) + 3000, From='127.0.0.%d' % rng.randrange(1, 200))
        # a client that never speaks does not even shake hands
        if tls and p:
            c['Tls'] = dict(Min=0, Max=0)
        for r in p:
            c['Reqs'].append(request(rng, i, r))
            i += 1
        conns.append(c)
    return dict(Yaml=y, Ups=[{}], Conns=conns, Conc=len(conns), Times=True)


def traces(case, rec, read, idle):
    if not rec['listening']:
        raise vv.Broken('server did not start: ' + rec['stderr'][-2000:])
    ups, seen = {}, {}
    for u in rec['ups']:
        ups.setdefault(u['req'], []).append(u['at'])
    for s in rec['reqs']:
        seen[s['id']] = s
    out = []
    for ci, c in enumerate(case['Conns']):
        cs = rec['conns'][ci]
        if cs['err'].startswith('dial'):
            raise vv.Broken(cs['err'])
        ev = []
        for q in c['Reqs']:
            s = seen.get(q['Id'])
            if not s:
                continue
            # one after the other; what happened within 100 ms is put in its natural order
            w = s.get('wrote') or []
            one = []
            if w:
                one.append((w[0] - 100, dict(e='begin', t=w[0])))
                if len(w) == len(q['Raw']):
                    one.append((w[-1] - 99, dict(e='whole', t=w[-1])))
            for t in ups.get(q['Id'], []):
                one.append((t - 50, dict(e='up', t=t)))
            t = s['sent'] + s['ms']
            if s['resp']:
                one.append((t, dict(e='answer', v=s['resp']['status'], t=t)))
            else:
                one.append((t, dict(e='end' if s['err'] == 'timeout' else 'close', t=t)))
            one.sort(key=lambda x: x[0])
            cut = next((k for k, (_, e) in enumerate(one) if e['e'] in ('answer', 'close')), len(one))
            # what a client still sends after it was answered does not count
            ev += [e for k, (_, e) in enumerate(one) if k <= cut or e['e'] != 'whole']
        ev.append(dict(e='close' if cs['closed'] >= 0 else 'end', t=cs['ended']))
        res, now = [], cs['begun']
        for e in ev:
            now = max(now, e['t'])
            res.append(dict(e, t=now))
            if e['e'] == 'close':
                break
        if not rec['alive']:
            res.append(dict(e='crash', t=0))
        out.append(dict(read=read, idle=idle, t=cs['begun'], ev=res))
    return out


def run(c):
    rng = random.Random(vv.SEED * 127 + 26)
    wire.bins()
    r = vv.model_check('TimeoutsMC', 'TimeoutsMC.cfg', subst={'@REQ@': '2' if not vv.THOROUGH else '3'})
    c.count(r)
    plans = [json.loads(x) for x in sorted(set(r.lines('PLAN')))]
    total = len(plans)
    todo = []
    for lim in sorted({(p['read'], p['idle']) for p in plans}):
        for tls in (False, True):
            ps = [p['plan'] for p in plans if (p['read'], p['idle']) == lim]
            rng.shuffle(ps)
            # the same plan may stand for several clients
            short = [p for p in ps if len(p) < 2]
            todo.append((lim, tls, short + [p for p in ps if len(p) >= 2][:(250 if not vv.THOROUGH else 900)]))
    for attempt in range(3):
        cases = [make(rng, ps, lim[0], lim[1], tls) for lim, tls, ps in todo]
        for k, x in enumerate(cases):
            x['Id'] = k
        recs = wire.run(cases, shards=len(cases))
        ts = [traces(x, rec, lim[0], lim[1]) for x, rec, (lim, _, _) in zip(cases, recs, todo)]
        flat = [t for x in ts for t in x]
        rej, runs = vv.validate_traces('TimeoutsTrace', 'TimeoutsTrace.cfg', flat)
        c.count(*runs)
        c.traces += len(flat) - len(rej)
        if attempt == 0:
            c.sample(dict(plan=todo[0][2][-1], trace=ts[0][-1]))
            c.extra.update(plans=total, clients=len(flat))
        if not rej:
            break
        vv.log('%d of %d clients rejected' % (len(rej), len(flat)))
        where, again = {}, []
        n = 0
        for k, x in enumerate(ts):
            bad = [j for j in range(len(x)) if n + j in rej]
            for j in bad:
                where[n + j] = todo[k][2][j]
            n += len(x)
            if bad:
                again.append((todo[k][0], todo[k][1], [todo[k][2][j] for j in bad][:100]))
        if attempt == 2:
            for k in sorted(rej):
                pre = rej[k]
                nxt = flat[k]['ev'][pre - 1] if 0 < pre <= len(flat[k]['ev']) else 'end'
                c.violation('TimeoutsTrace rejects event %d three times: %s (read %d, idle %d)' % (pre, json.dumps(nxt), flat[k]['read'], flat[k]['idle']), dict(trace=flat[k], plan=where[k]))
        todo = again
    c.assumptions += ['real time with a tolerance of 0.25 s down and 1.5 s up; a rejection counts only if the plan is rejected three times', 'loopback networking', 'HTTP/1.1 only']
