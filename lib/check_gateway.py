"""C01-C05: lifecycle of a proxied request. Specification Gateway, conformance by replaying upstream scripts that
TLC derives from it (GatewayMC) against the real handler in virtual time and validating what happened (GatewayTrace)."""
import gzip, json, random
import vv, wire, words

REP = ['GET', 'HEAD', 'OPTIONS', 'TRACE', 'PUT', 'DELETE']
ERRS = ['', 'refused', 'reset', 'eof', 'unexpected', 'timeout', 'dns', 'tls', 'deadline', 'canceled', 'malformed']
NONREP = ['POST']

SIMCFG = '''SPECIFICATION MCSpec
CONSTANTS
  Focus = "ALL"
  Ms = {1, 2, 3, 4, 5}
  Rs = {1000, 2000, 3000, 7000}
  Ts = {1000, 2000, 4000, 5000, 9000}
  Delays = {0, 30, 310, 730, 1310, 2710, 4130}
  Statuses = {200, 201, 204, 206, 226, 299, 301, 302, 304, 308, 399, 400, 401, 403, 404, 409, 418, 429, 451, 499, 500, 501, 502, 503, 504, 505, 511, 599}
  Dump = TRUE
INVARIANTS TypeOK C01_Bounded C02_Recovered C03_Status C04_Deadlines C05_OneSource DumpScripts
CHECK_DEADLOCK FALSE
'''

DUMPCFG = '''SPECIFICATION MCSpec
CONSTANTS
  Focus = "ALL"
  Ms = {1, 2, 3}
  Rs = {2000}
  Ts = {1000, 3000, 5000}
  Delays = {0, 300, 1310}
  Statuses = {200, 404, 503}
  Dump = TRUE
INVARIANTS TypeOK C01_Bounded C02_Recovered C03_Status C04_Deadlines C05_OneSource DumpScripts
CHECK_DEADLOCK FALSE
'''


def text(rng, n):
    return ''.join(rng.choice('abcdefghijklmnopqrstuvwxyz{}:",0123456789 ') for _ in range(n)).encode()


def concretize(rng, script, i, focus):
    """Turns a behaviour of the specification into a request and upstream responses."""
    cfg = script['cfg']
    method = rng.choice(REP if cfg['rep'] else NONREP)
    if rng.random() < 0.02 and not cfg['rep']:
        method = 'POST'
    hdrs = [['X-Tag', 'c%d' % i], ['Accept', 'application/json']]
    if rng.random() < 0.5:
        hdrs.append(['X-Multi', 'one'])
        hdrs.append(['X-Multi', 'two, three'])
    if rng.random() < 0.5:
        hdrs += wire.random_headers(rng, wire.NAMES, rng.choice([1, 3]))
    ae = rng.choice(['gzip', None, 'identity'])
    if ae:
        hdrs.append(['Accept-Encoding', ae])
    body = b''
    if method in ('PUT', 'POST', 'DELETE') and rng.random() < 0.7:
        body = text(rng, rng.choice([1, 2, 50, 3000]) if rng.random() > words.sizes_often() else words.size(rng, 1, 100000))
    ups = []
    for k, a in enumerate(script['att'], 1):
        u = dict(Hdr=-1, Kind='status', Status=a['status'] or rng.choice([200, 200, 404, 503]), BodyAt=-1, Break=False,
                 Lag=rng.choice([0, 0, 1, 170, 900, 1450, 2590, 5330]), LateOk=rng.random() < 0.5)
        if a['hdrAt'] >= 0:
            u['Hdr'] = a['hdrAt'] - a['start']
            if a['st'] in ('won', 'error'):
                u['BodyAt'] = a['endAt'] - a['hdrAt']
        elif a['st'] == 'error':
            u['Kind'] = 'err'
            u['Hdr'] = a['endAt'] - a['start']
        plain = b'{"attempt":%d,"t":"' % k + text(rng, rng.choice([0, 3, 40, 2000]) if rng.random() > words.sizes_often() else words.size(rng, 1, 100000)) + b'"}'
        if rng.random() < 0.15:
            plain = plain[:rng.choice([0, 1, 2])]
        h = [['X-Up-Attempt', str(k)], ['X-Up-%d' % k, 'a'], ['X-Up-%d' % k, 'b'], ['Content-Type', 'text/x%d' % k]]
        if rng.random() < 0.5:
            h += wire.random_headers(rng, wire.UNAMES, rng.choice([1, 3]))
        u['Err'] = rng.choice(ERRS)
        u['Joint'] = rng.random() < 0.3
        u['Known'] = rng.random() < 0.3 and method != 'HEAD'
        coding = rng.choice(['', 'gzip', 'gzip', 'identity'])
        raw = plain
        if coding == 'gzip':
            raw = gzip.compress(plain, mtime=0) if plain else b''
        if coding:
            h.append(['Content-Encoding', coding])
        u['Headers'] = h
        u['Body'] = vv.b64(raw)
        u['Split'] = rng.choice([0, min(2, len(raw)), len(raw) // 2, len(raw)])
        ups.append(u)
    # an error of the last attempt that reached its header: the body breaks (unless it was a complete 5xx)
    for u, a in zip(ups, script['att']):
        if a['st'] == 'error' and u['Kind'] == 'status':
            if a['status'] < 500:
                u['Break'] = True
            else:
                u['Break'] = rng.random() < 0.3
    # beyond the script: what upstream would do if it were asked again
    for k in range(len(ups) + 1, len(ups) + 4):
        ups.append(dict(Hdr=0, Kind='status', Status=200, BodyAt=0, Break=False, Lag=0, LateOk=False,
                        Headers=[['X-Up-Attempt', str(k)]], Body=vv.b64(b'{"extra":%d}' % k), Split=0))
    target = rng.choice(['/', '/todos/1', '/a/b?x=1&y=%20z', '/p%2Fq', '/' + words.segment(rng), '/x?%s=%s' % (words.segment(rng), words.segment(rng))])
    if rng.random() < 0.02:
        target = '/' + 'z' * words.size(rng, 1, 3000)
    if rng.random() < 0.1 and body:
        hdrs.append(['Expect', '100-continue'])
    return dict(Id=i, Cfg=dict(M=cfg['M'], R=cfg['R'] // 1000, T=cfg['T'] // 1000),
                Req=dict(Method=method, Target=target, Headers=hdrs, Body=vv.b64(body), Chunked=rng.random() < 0.3 and len(body) > 0, Ups=ups))


def order(ev, R, T):
    """A response at the very moment of the round trip deadline and attempts started at that same moment, because the read
    timeout of one of them coincides with the deadline, are observed in no particular order."""
    for i, e in enumerate(ev):
        if e['e'] == 'resp' and e['t'] == T:
            if not any(x['e'] == 'up' and x['t'] == T - R for x in ev[:i]):
                return ev
            j = i
            while j + 1 < len(ev) and ev[j + 1]['t'] == T:
                j += 1
            return ev[:i] + ev[i + 1:j + 1] + [e] + ev[j + 1:]
    return ev


def trace(case, rec):
    c = case['Cfg']
    if isinstance(rec, vv.Crash):
        return dict(id=case['Id'], rep=case['Req']['Method'] in REP, M=c['M'], R=c['R'] * 1000, T=c['T'] * 1000,
                    ev=[dict(e='crash', n=0, t=0, s=0, same=False, src=0)], cancel=[])
    return dict(id=case['Id'], rep=case['Req']['Method'] in REP, M=c['M'], R=c['R'] * 1000, T=c['T'] * 1000,
                ev=order(rec['ev'], c['R'] * 1000, c['T'] * 1000), cancel=rec['cancel'])


def interesting(pid, s):
    """scripts that exercise the property at all"""
    att = s['att']
    if pid == 'C05':
        return any(a['st'] in ('timeout', 'deadline') for a in att)
    if pid == 'C02':
        return s['cfg']['rep'] and len(att) > 1
    if pid == 'C04':
        return any(a['st'] in ('timeout', 'deadline') or a['endAt'] - a['start'] > 1000 for a in att)
    return True


def run(c):
    rng = random.Random(vv.SEED)
    # 1. the specification satisfies the properties, exhaustively within the bounds of GatewayMC.cfg
    subst = {}
    if vv.THOROUGH:
        subst = {'Ms = {1, 2, 3}': 'Ms = {1, 2, 3, 4}', 'Statuses = {200, 404, 503}': 'Statuses = {200, 302, 404, 503}'}
    mc = vv.model_check('GatewayMC', 'GatewayMC.cfg', subst=subst, timeout=800)
    c.count(mc)
    # 2. upstream scripts: all within small bounds, and random walks through a larger model
    n1, n2 = (1500, 2500) if not vv.THOROUGH else (40000, 60000)
    d = vv.tlc('GatewayMC', DUMPCFG, workers=1)
    scripts = [json.loads(x) for x in d.lines('SCRIPT')]
    c.count(d)
    total = len(scripts)
    sel = [s for s in scripts if interesting(c.pid, s)]
    rng.shuffle(sel)
    sel = sel[:n1]
    s = vv.tlc('GatewayMC', SIMCFG, workers=1, args=['-simulate', 'num=%d' % (n2 * 2), '-depth', '30', '-seed', str(vv.SEED)])
    sim = [json.loads(x) for x in s.lines('SCRIPT')]
    sim = [x for x in sim if interesting(c.pid, x)]
    seen, uniq = set(), []
    for x in sim:
        k = json.dumps(x, sort_keys=True)
        if k not in seen:
            seen.add(k)
            uniq.append(x)
    sel += uniq[:n2]
    # 3. replay them against the real code
    cases = [concretize(rng, x, i, c.pid) for i, x in enumerate(sel)]
    drv = vv.build_driver(['gateway.go'])
    recs = vv.run_driver(drv, 'gateway', cases)
    judge(c, drv, cases, recs)
    c.extra.update(scripts_enumerated=total, scripts_random=len(uniq), replayed=len(cases),
                   attempts_observed=sum(len(r['cancel']) for r in recs if isinstance(r, dict)),
                   timeouts_observed=sum(1 for x in sel for a in x['att'] if a['st'] in ('timeout', 'deadline')))
    for k in (0, len(cases) // 2, len(cases) - 1):
        if isinstance(recs[k], dict):
            c.sample(dict(case=cases[k]['Cfg'], method=cases[k]['Req']['Method'], observed=recs[k]))
    c.assumptions += ['virtual time: testing/synctest; computation takes no time',
                      'upstream is a stub of the HTTP client; delays are chosen so that upstream events never coincide with timers']


def judge(c, drv, cases, recs):
    ok = [i for i, r in enumerate(recs) if r is not None]
    traces = [trace(cases[i], recs[i]) for i in ok]
    rej, runs = vv.validate_traces('GatewayTrace', 'GatewayTrace.cfg', traces, subst={'@FOCUS@': c.pid})
    c.count(*runs)
    c.traces += len(traces) - len(rej)
    if not rej:
        return
    # every rejected trace happened; replaying the case tells whether it depends on scheduling
    again = sorted(rej)[:20]
    for i in again:
        reps = [cases[ok[i]]] * 8
        recs2 = vv.run_driver(drv, 'gateway', reps)
        tr2 = [trace(x, r) for x, r in zip(reps, recs2)]
        rej2, _ = vv.validate_traces('GatewayTrace', 'GatewayTrace.cfg', tr2, subst={'@FOCUS@': c.pid})
        t, pre, rec = traces[i], rej[i], recs[ok[i]]
        nxt = t['ev'][pre - 1] if 0 < pre <= len(t['ev']) else 'end of trace'
        c.violation('trace rejected by GatewayTrace at event %d (%s) of %s %s (again in %d of %d replays)' % (
            pre, json.dumps(nxt), reps[0]['Req']['Method'], json.dumps(t)[:400], len(rej2), len(reps)),
            dict(case=reps[0], trace=t, matched_prefix=pre, crash=rec.text if isinstance(rec, vv.Crash) else None))
        if len(c.violations) >= 5:
            break
