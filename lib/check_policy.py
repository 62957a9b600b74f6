"""C09: policies. Specification Policy; the policies and resources of PolicyMC are given to the real server, the upstream every
request reached is judged by TLC (PolicyTrace): never an upstream the policy excludes, observed frequencies within
7 standard deviations of the weights, successive choices independent, also after other traffic and between servers."""
import json, random
import vv, wire

NAMES = {}


def config(rng, conf, ups):
    """conf as TLC made it; labels, order and spelling of the file vary"""
    pol, routes, res = '', '', ''
    routes += '  - path: /p\n    resource: res\n' + ('    policy: pol\n' if conf['policy'] else '')
    routes += '  - path: /other\n    resource: other\n  - path: /about\n    resource: about\n  - path: /none\n    resource: none\n'
    if conf['policy'] and conf['weights']:
        pol = '  pol:\n' + ''.join('    - label: %s\n      weight: %s\n' % (w['label'], ('%.2f' % (w['w'] / 100)).rstrip('0').rstrip('.')) for w in conf['weights'])
    elif conf['policy']:
        routes = routes.replace('policy: pol', 'policy: missing')
    if conf['ups']:
        res += '  res:\n'
        for i, ls in enumerate(conf['ups']):
            res += '    -' + ('\n      labels:\n' + ''.join('        - %s\n' % l for l in ls) if ls else '\n')
            res += '      url:\n        scheme: http\n        host: 127.0.0.1\n        port: "${UP%d}"\n'.replace('"', '') % i
    elif rng.random() < 0.5:
        res += '  res: []\n'
    res += wire.resource('other', len(conf['ups']))
    return wire.yaml(routes, res, policies=pol)


def requests(rng, n, noise, first):
    """raw requests and what they are"""
    out, k = [], first
    for _ in range(n):
        if noise and rng.random() < noise:
            m, t = rng.choice([('GET', '/nope'), ('GET', '/about'), ('PATCH', '/p'), ('GET', '/none'), ('GET', '/other'), ('GET', '/other/x')])
            out.append((k, m, t, 'other'))
            k += 1
        t = '/p' + rng.choice(['', '/a', '?x', '/b/c'])
        out.append((k, rng.choice(['GET', 'GET', 'POST', 'PUT', 'DELETE']), t, 'sel'))
        k += 1
    return out, k


def make(rng, i, conf, n, noise, conc):
    case = dict(Id=i, Yaml=config(rng, conf, None), Ups=[{} for _ in range(len(conf['ups']) + 1)], Conns=[], Conc=conc)
    kinds, k = {}, 0
    for _ in range(conc):
        rs, k = requests(rng, n // conc, noise, k)
        case['Conns'].append(dict(From='127.0.%d.%d' % (rng.randrange(5), rng.randrange(1, 250)), Reqs=[
            dict(Id=a, Method=m, Raw=[dict(B=vv.b64('%s %s HTTP/1.1\r\nHost: h\r\nX-Vtag: %d\r\n\r\n' % (m, t, a)))]) for a, m, t, _ in rs]))
        kinds.update({a: kd for a, m, t, kd in rs})
    return case, dict(conf=conf, kinds=kinds)


def outcomes(m, rec):
    if not rec['listening'] or not rec['alive']:
        return None, [dict(e='crash', v=rec['stderr'][-600:])]
    up = {}
    for u in rec['ups']:
        up.setdefault(u['req'], []).append(u['up'] + 1)
    ev, seq = [], []
    for s in rec['reqs']:
        if m['kinds'][s['id']] == 'other':
            ev.append(dict(e='other'))
            continue
        u = up.get(s['id'], [])
        st = s['resp']['status'] if s['resp'] else -1
        o = u[0] if len(u) == 1 and st == 200 else 0 if not u and st == 503 else -1
        seq.append(o)
        ev.append(dict(e='sel', v=o) if o >= 0 else dict(e='bad', v=dict(status=st, err=s['err'], upstreams=u)))
    ev.append(dict(e='judge'))
    return seq, ev


def run(c):
    rng = random.Random(vv.SEED * 31 + 9)
    r = vv.model_check('PolicyMC', 'PolicyMC.cfg', subst={'@MAX@': '6' if vv.THOROUGH else '4'}, timeout=800)
    c.count(r)
    confs = [json.loads(x) for x in r.lines('CASE')]
    rng.shuffle(confs)
    cases, meta = [], []

    def add(conf, n, noise, conc):
        a, b = make(rng, len(cases), conf, n, noise, conc)
        cases.append(a)
        meta.append(b)
    for conf in confs:
        add(conf, 300 if not vv.THOROUGH else 3000, rng.choice([0, 0.3]), rng.choice([1, 4]))
    wide = [x for x in confs if x['policy'] and len(x['weights']) > 1 and len(x['ups']) > 1]
    wide += [dict(policy=True, weights=[dict(label='l%d' % k, w=w) for k, w in enumerate(ws)], ups=[['l%d' % k] for k in range(len(ws))])
             for ws in ([1, 99], [99, 1], [25, 25, 25, 25], [7, 13, 80], [33, 33, 34], [10] * 10, [60, 10, 30], [50, 20, 30, 0])]
    for conf in wide:
        conf = json.loads(json.dumps(conf))
        rng.shuffle(conf['weights'])
        rng.shuffle(conf['ups'])
        add(conf, 2400 if not vv.THOROUGH else 16000, rng.choice([0, 0.5, 1]), rng.choice([1, 1, 8]))
    even = dict(policy=True, weights=[dict(label='green', w=50), dict(label='blue', w=50)], ups=[['green'], ['blue']])
    runs = list(range(len(cases), len(cases) + 8))
    for _ in runs:
        add(even, 60, 0, 1)
    recs = wire.run(cases)
    traces, seqs = [], []
    for k, (m, x) in enumerate(zip(meta, recs)):
        seq, ev = outcomes(m, x)
        if k in runs and seq:
            seqs.append(seq)
        traces.append(dict(conf=m['conf'], ev=ev))
    traces.append(dict(conf=even, ev=[dict(e='runs', v=seqs)]))
    order = sorted(range(len(traces)), key=lambda k: -len(traces[k]['ev']))
    n = vv.CORES * 2
    order = [k for i in range(n) for k in order[i::n]]
    rej, runs_ = vv.validate_traces('PolicyTrace', 'PolicyTrace.cfg', [traces[k] for k in order], chunk=(len(order) + n - 1) // n, timeout=800)
    c.count(*runs_)
    c.traces += len(traces) - len(rej)
    for j in sorted(rej):
        k, pre = order[j], rej[j]
        t = traces[k]
        bad = t['ev'][pre - 1] if pre <= len(t['ev']) else 'end'
        counts = {}
        for e in t['ev']:
            if e['e'] == 'sel':
                counts[e['v']] = counts.get(e['v'], 0) + 1
        c.violation('PolicyTrace rejects event %d: %s; policy %s, outcomes %s' % (pre, json.dumps(bad)[:300], json.dumps(t['conf']), counts),
                    dict(conf=t['conf'], matched_prefix=pre, outcomes=counts, yaml=cases[k]['Yaml'] if k < len(cases) else None))
    c.sample(*[dict(conf=t['conf'], first=[e.get('v', e['e']) for e in t['ev'][:20]]) for t in traces[-12:-9]])
    c.extra.update(policies=len(cases), choices=sum(len(t['ev']) for t in traces))
    c.assumptions += ['a fair choice is refused with a probability below 1e-9 per run', 'loopback networking']
