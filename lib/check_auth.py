"""C10-C12: routes with jwt configurations and the rotation of their keys. Specification Auth. Histories that TLC makes up
(AuthMC) and random configurations and tokens are played in virtual time against the real handler, with a key set endpoint
behind it, and judged by AuthTrace."""
import concurrent.futures as cf
import json, random
import vv

EPOCH = 946684800   # where virtual time begins
ALGS = ['RS256', 'RS384', 'RS512', 'PS256', 'PS384', 'PS512', 'HS256', 'HS384', 'HS512', 'ES256', 'ES384', 'ES512']
CURVE = {'ES256': '256', 'ES384': '384', 'ES512': '521'}


def key(alg, i):
    """i: 1 to 4"""
    if alg[0] in 'RP':
        return 'r%d' % i
    if alg[0] == 'E':
        return 'p%s%s' % (CURVE[alg], 'abcd'[i - 1])
    return 's%d' % i


def other_alg(rng, alg):
    """another algorithm, preferably one that could be confused with it"""
    sib = [a for a in ALGS if a != alg and (a[2:] == alg[2:] or a[:2] == alg[:2])]
    return rng.choice(sib if sib and rng.random() < 0.7 else [a for a in ALGS if a != alg] + ['none'])


def has(v):
    return dict(has=v is not None, v=v or 0)


HDREXTRA = ['"typ":"JWT"', '"cty":"x"', '"jku":"http://evil.example/keys"', '"x":[1,{"y":null}]', '"x5t":"abcd"']
ODDHDR = ['"crit":["exp"]', '"b64":false', '"kid":17', '"jwk":null', '"x5c":["MII"]', '"x5c":[]', '"typ":5']
MUTS = ['sig', 'sigend', 'claims', 'zerosig', 'header']
ODDMUTS = ['payload', 'nosig', 'twoparts', 'cutsig', 'emptyhdr', 'extra', 'onepart', 'sigasder']


def token(rng, cfg, keyname, kid, sign_alg, mut='', claims=None, unusual=0.15, hdr_alg=None):
    """A token for the driver and the same for the specification. claims: name -> seconds since the start of the case"""
    claims = claims or {}
    plain = True
    named = hdr_alg or (cfg['alg'] if rng.random() < 0.5 else sign_alg)
    if named == 'none' and sign_alg != 'none' or named != cfg['alg']:
        plain = False
    h = ['"alg":"%s"' % named]
    if kid is not None:
        h.append('"kid":%s' % json.dumps(kid))
    h += rng.sample(HDREXTRA, rng.choice([0, 1, 1, 2]))
    if rng.random() < 0.1 and keyname and keyname[0] in 'rp' and not keyname.startswith('pub'):
        h.append(rng.choice(['"jwk":${jwk:%s}', '"x5c":["${x5c:%s}"]']) % keyname)
        plain = False
    form = ''
    if rng.random() < unusual:
        plain = False
        c = rng.random()
        if c < 0.3:
            h.append(rng.choice(ODDHDR))
        elif c < 0.6:
            form = rng.choice(['flat', 'general'])
        elif c < 0.8:
            mut = rng.choice(ODDMUTS)
        else:
            h[0] = rng.choice(['"alg":""', '"alg":null', '"alg":"NONE"', '"alg":"xs256"', '"x":1', '"alg":7'])
    rng.shuffle(h)
    p = ['"sub":"u"', '"n":%d' % rng.randrange(10 ** 6)]
    for k, v in claims.items():
        n = '%d' % (EPOCH + v)
        if rng.random() < 0.02:
            n = rng.choice([n + '.0', '"%s"' % n])
            plain = False
        p.append('"%s":%s' % (k, n))
    rng.shuffle(p)
    if mut in ODDMUTS:
        plain = False
    drv = dict(Sign=sign_alg, Key=keyname, Hdr='{' + ','.join(h) + '}', Pay='{' + ','.join(p) + '}', Mut=mut, Form=form)
    parse = 'yes'
    if cfg['alg'] == 'none' and not (mut in ('', 'nosig', 'sig', 'sigend', 'claims', 'zerosig', 'header') and plain):
        parse = 'open'
    spec = dict(parse=parse, plain=plain, signAlg=sign_alg, key=keyname, intact=mut == '',
                kid='' if kid is None or any('"kid":17' == x for x in h) else kid,
                exp=has(claims.get('exp')), nbf=has(claims.get('nbf')), iat=has(claims.get('iat')))
    return drv, spec


LITS = ['a', 'a.b', 'a.b.c', '....', '..', '.', 'null', '{}', '{"payload":""}', '{"payload":"e30","signatures":[]}', '{"payload":"e30"}', '[]',
        '{"payload":"e30","signature":""}', '{"payload":"e30","signatures":[{}]}', 'eyJhbGciOiJSUzI1NiJ9', 'eyJhbGciOiJSUzI1NiJ9.e30',
        'eyJhbGciOiJSUzI1NiJ9.e30.', 'eyJhbGciOiJub25lIn0.e30.', 'bnVsbA.bnVsbA.bnVsbA', 'W10.W10.W10', 'e30.e30.e30', 'IiI.IiI.IiI', 'x' * 3000,
        '"', '\\', '{', '%00', 'e30=.e30=.e30=', 'eyJraWQiOiJhIn0.e30.AAAA', '\xff\xfe', 'e30.bnVsbA.AAAA', 'MQ.MQ.MQ', 'eyJhbGciOm51bGx9.e30.AAAA',
        '{"payload":"e30","protected":"e30","signature":"AAAA"}', '{"signatures":null,"payload":null}', '{"payload":"e30","signatures":[{"protected":"!"}]}']


def literal(rng, cfg):
    lit = rng.choice(LITS)
    return dict(Lit=lit), dict(parse='open' if cfg['alg'] == 'none' else 'no', plain=False, signAlg='', key='', intact=False, kid='?',
                               exp=has(None), nbf=has(None), iat=has(None))


NOTOK = dict(parse='no', plain=False, signAlg='', key='', intact=False, kid='', exp=has(None), nbf=has(None), iat=has(None))


def again(rng, cfg, drv, spec):
    """A token presented before: the same to the byte, or as good as."""
    if 'Pay' not in drv:
        return None
    spec = dict(spec, plain=spec['plain'] and '"alg":"%s"' % cfg['alg'] in drv['Hdr'])
    if cfg['alg'] == 'none':
        spec['parse'] = 'open'
    if rng.random() < 0.2 and not drv['Mut'] and cfg['alg'] != 'none':
        drv, spec = dict(drv, Mut=rng.choice(MUTS)), dict(spec, intact=False)
    return dict(drv), spec


def request(rng, i, at, path, drv, spec, conc=1, usual=0.85):
    auth = ['Bearer %T']
    if spec['parse'] == 'no' and 'Lit' not in drv:
        auth = rng.choice([[], [], ['Bearer'], ['Bearer '], ['Basic dTpw'], [''], ['Bearer null']])
        if rng.random() < 0.2:
            path += '?access_token=%T'
    elif rng.random() > usual:
        auth = rng.choice([['bearer %T'], ['BEARER %T'], ['Bearer  %T'], ['%T'], ['Bearer %T x'], ['Basic dTpw', 'Bearer %T'], ['Bearer %T', 'Bearer a.b.c'],
                           ['Bearer a.b.c', 'Bearer %T'], ['Bearer,%T'], ['Bearer %T,%T']])
        spec = dict(spec, plain=False)
        if spec['parse'] == 'yes':
            spec['parse'] = 'open'
    tail = rng.choice(['', '', '/x', '/x?y=1'])
    return dict(Id=i, At=at, Path=path + ('' if '?' in path else tail), Method=rng.choice(['GET', 'GET', 'HEAD', 'DELETE', 'OPTIONS', 'POST']), Auth=auth, Tok=drv, Conc=conc), spec


def offer(rng, pubs, jwt, at, kind, alg, boot=False):
    """An abstract key set response of AuthMC as something the endpoint sends. Returns what the specification knows of it."""
    es, spec = [], []
    for e in kind['es']:
        a = alg if e['alg'] == 'A' else other_alg(rng, alg)
        k = key(alg, e['key'])
        d = dict(Kid=e['kid'], Alg=a, Key=k, NoKid=e['kid'] == '')
        if e['alg'] != 'A' and a in ALGS:
            d['Key'] = key(a, e['key'])
        if a == 'none':
            d['Alg'] = rng.choice(['', 'none', 'XS256', 'RSA-OAEP', 'rs256'])
            a = 'other'
        if e['class'] == 'unfit':
            wrong = [x for x in ('r%d', 'p256%s', 'p384%s', 'p521%s', 's%d') if (x % (e['key'] if '%d' in x else 'abcd'[e['key'] - 1])) != k]
            w = rng.choice(wrong)
            d['Key'] = w % (e['key'] if '%d' in w else 'abcd'[e['key'] - 1])
        if e['class'] == 'odd':
            d['Priv'] = rng.random() < 0.5
            d['Use'] = rng.choice(['enc', 'sig', ''])
        elif rng.random() < 0.3:
            d['Use'] = 'sig'
        es.append(d)
        spec.append(dict(kid=e['kid'], key=d['Key'], alg=a, **{'class': e['class']}))
    p = dict(At=at, Jwt=jwt, Mode='ok', Entries=es, Delay=0, Drip=0, Status=200)
    whole = kind['whole']
    if whole == 'no':
        p['Mode'] = rng.choice(['status', 'status', 'garbage', 'empty', 'nokeys', 'err', 'hang', 'hangbody', 'keysnull', 'null'])
        p['Status'] = rng.choice([500, 503, 404, 403, 201, 204])
        if p['Mode'] == 'status':
            p['Entries'] = [dict(Kid='a', Alg=alg, Key=key(alg, 3))]   # an error page may look like keys
        elif p['Mode'] in ('hang', 'hangbody'):
            p['Entries'] = [dict(Kid='c', Alg=alg, Key=key(alg, 3))]
    elif whole == 'open':
        if rng.random() < 0.5:
            p['Mode'] = rng.choice(['cutjson', 'list'])
        else:
            bad = rng.choice(['{"kty":"RSA","alg":"%s","kid":"bad"}', '{"kty":"EC","crv":"P-256","alg":"%s","kid":"bad","x":"AA","y":"AA"}',
                              '{"kty":"RSA","alg":"%s","kid":"bad","n":"!!","e":"AQAB"}', '{"kty":"xxx","alg":"%s"}', '{}', 'null', '7', '{"kty":"oct","alg":"%s","k":"AAAA"}',
                              '{"kty":"EC","crv":"P-999","alg":"%s","kid":"bad","x":"AA","y":"AA"}', '{"kty":"RSA","alg":"%s","kid":"bad","n":"AA","e":""}',
                              '{"kty":"RSA","alg":"%s","kid":"bad","n":"","e":"AQAB"}', '{"kty":"EC","alg":"%s","kid":"bad"}', '{"kty":"OKP","crv":"Ed25519","alg":"%s","x":"AAAA","kid":"bad"}'])
            es.insert(rng.randrange(len(es) + 1), dict(Raw=bad % alg if '%s' in bad else bad))
    pubs.append(p)
    return dict(whole=whole, es=spec)


def from_script(rng, i, script, offers):
    """A history of AuthMC."""
    alg = rng.choice([a for a in ALGS if a[0] != 'H'])
    cfg = dict(alg=alg, skew=rng.choice([0, 120, 120, 600]), jwks=True)
    case = dict(Id=i, Jwts=[dict(Name='j', Alg=alg, Key='', Skew='' if cfg['skew'] == 120 and rng.random() < 0.5 else str(cfg['skew']), Jwks=True)],
                Routes=[['/p', 'j'], ['/open', '']], Pubs=[], Reqs=[], End=0)
    specs, pubspec, given = {}, [], []
    base, cur, cur_offer = 0, 0, None
    # what the endpoint does with the next fetch: the delay follows the request that asks for it in the script
    for st in script:
        cur += rng.randrange(1, 6)
        at = base + cur
        if st['a'] == 'offer':
            pubspec.append(offer(rng, case['Pubs'], 'j', 0 if not case['Pubs'] else at, offers[st['i'] - 1], alg))
        elif st['a'] == 'delay':
            p = case['Pubs'][-1]
            d = 500 if not p['At'] else st['d']
            p['Delay'] = rng.choice([0, d, d // 2, d - 1]) if d == 500 else rng.choice([0, d])
            p['Drip'] = d - p['Delay']
        elif st['a'] == 'tick':
            base += st['d']
        else:
            t = st['tok']
            sec = at // 1000
            far = rng.choice([1000, 5000, 100000])
            claims = {}
            if t['exp']['has']:
                claims['exp'] = sec + far if t['exp']['v'] > 0 else sec - cfg['skew'] - rng.choice([0, 1, far])
            if t['nbf']['has']:
                claims['nbf'] = sec + cfg['skew'] + rng.choice([1, 2, far])
            k = key(alg, t['key'])
            sa = alg
            if t['signAlg'] != 'A':
                sa = other_alg(rng, alg)
                if sa == 'none':
                    k = ''
                elif sa[0] == 'H':
                    k = 'pub:' + k
                elif sa[0] + sa[2:] != alg[0] + alg[2:] and sa[0] not in 'RP' or alg[0] == 'E':
                    k = key(sa, t['key'])
            drv, spec = token(rng, cfg, k, t['kid'] or None, sa, '' if t['intact'] else rng.choice(MUTS), claims, unusual=0.05,
                              hdr_alg=alg if t['signAlg'] == 'A' else None)
            before = [x for x in given if x[0] == t]
            if before and rng.random() < 0.6 or given and rng.random() < 0.1:
                drv, spec = again(rng, cfg, *rng.choice(before or given)[1:])
            given.append((t, drv, spec))
            drv, spec = request(rng, len(case['Reqs']), at, '/p', drv, spec, conc=rng.choice([1, 1, 1, 2, 5, 25]), usual=0.97)
            specs[drv['Id']] = ('j', spec)
            case['Reqs'].append(drv)
    case['End'] = base + 75000
    return case, dict(cfg={'j': cfg}, held={'j': []}, specs=specs, pubs=pubspec, preloaded=set())


SKEWS = ['', '', '0', '0', '1', '5', '120', '300', '86400', '2592000', '100000000', '900000000']


def from_random(rng, i, focus):
    """Static keys and preloaded key sets, all algorithms, several configurations, claims around their limits."""
    case = dict(Id=i, Jwts=[], Routes=[['/open', '']], Pubs=[], Reqs=[], End=0)
    cfgs, held, specs, pubspec = {}, {}, {}, []
    for k in range(rng.choice([1, 1, 2, 3])):
        name = 'j%d' % k
        alg = rng.choice(ALGS + (['none'] if rng.random() < 0.3 else []))
        skew = rng.choice(SKEWS)
        jwks = alg[0] in 'RPE' and rng.random() < 0.4
        static = not jwks or rng.random() < 0.1
        j = dict(Name=name, Alg=alg, Key='', Skew=skew, Jwks=jwks)
        held[name] = []
        if static and alg != 'none':
            kn = key(alg, rng.choice([1, 2, 3]))
            j['Key'] = '${sec:%s}' % kn if alg[0] == 'H' else rng.choice(['${pub:%s}', '${cert:%s}']) % kn
            held[name] = [dict(kid='~%s' % name, key=kn)]
        if jwks:
            es = [dict(kid=kid, key=kk, alg='A', **{'class': 'fit'}) for kid, kk in zip(rng.sample(['a', 'b', 'c', 'kid with space', 'ü', 'x' * 200], 3), (1, 2, 3))]
            pubspec.append(offer(rng, case['Pubs'], name, 0, dict(whole='yes', es=es[:rng.choice([1, 2, 3])]), alg))
        case['Jwts'].append(j)
        case['Routes'].append(['/' + name, name])
        cfgs[name] = dict(alg=alg, skew=int(skew or 120), jwks=jwks)
    names = list(cfgs)
    given = []
    at = 1000
    for n in range(rng.choice([6, 12, 25])):
        at += rng.choice([1, 7, 499, 999, 1000, 1001, 3000, 3000])
        # to the limit of a token that was presented before
        lim = [v['v'] + cfgs[j]['skew'] for j, v in ((g[0], g[2]['exp']) for g in given) if v['has']] + \
              [v['v'] - cfgs[j]['skew'] for j, v in ((g[0], g[2]['nbf']) for g in given) if v['has']]
        lim = [x for x in lim if at // 1000 - 1 <= x < at // 1000 + 5000]
        if lim and rng.random() < 0.15:
            at = max(at, rng.choice(lim) * 1000 + rng.choice([-1000, -1, 0, 1, 999, 1000, 1001, 2000]))
        j = rng.choice(names)
        cfg = cfgs[j]
        sec = at // 1000
        r = rng.random()
        if r < 0.06:
            drv, spec = dict(Lit='x'), dict(NOTOK)
            drv = {}
        elif r < 0.16:
            drv, spec = literal(rng, cfg)
        elif r < 0.4 and given:
            gj, drv, spec = rng.choice(given)
            if rng.random() < 0.8:
                j, cfg = gj, cfgs[gj]
            drv, spec = again(rng, cfg, drv, spec)
        else:
            src = cfg if rng.random() < 0.85 else cfgs[rng.choice(names)]
            alg = src['alg'] if src['alg'] != 'none' else rng.choice(ALGS + ['none'])
            sa = alg if rng.random() < 0.75 else other_alg(rng, alg)
            kn = key(alg, rng.choice([1, 1, 2, 2, 3, 4])) if alg != 'none' else ''
            if rng.random() < 0.6 and held[j] and alg == cfg['alg']:
                kn = held[j][0]['key']
            if sa != alg:
                if sa == 'none':
                    kn = ''
                elif sa[0] == 'H' and alg[0] != 'H':
                    kn = rng.choice(['pub:' + kn, 'lit:', 'lit:' + kn]) if kn else 's1'
                elif {sa[0], alg[0]} <= {'R', 'P'} or sa[0] == alg[0] == 'H':
                    pass
                else:
                    kn = key(sa, 1)
            claims = {}
            sk = cfg['skew']
            far = rng.choice([10, 3600, 10 ** 6])
            edge = [-2, -1, 0, 1, 2]
            if rng.random() < (0.9 if focus == 'C11' else 0.4):
                which = rng.choice([['exp'], ['nbf'], ['iat'], ['exp', 'nbf'], ['exp', 'iat'], ['exp', 'nbf', 'iat'], ['nbf', 'iat']])
                off = rng.choice(which)
                for w in which:
                    d = rng.choice(edge) if w == off and rng.random() < 0.8 else (far if w == 'exp' else -far)
                    if w == 'exp':
                        claims[w] = sec - (sk if w == off else 0) + d
                    else:
                        claims[w] = sec + (sk if w == off else 0) + d
                    if rng.random() < 0.03:
                        claims[w] = rng.choice([-EPOCH, 1 - EPOCH, 2 - EPOCH, 10 ** 9])
            drv, spec = token(rng, cfg, kn, rng.choice([None, None, 'a', 'b', 'c', 'zz', '', 'kid with space', 'ü', 'x' * 200, '~' + j]), sa,
                              rng.choice(MUTS) if rng.random() < 0.15 else '', claims)
        if 'Pay' in drv:
            given.append((j, drv, spec))
        path = '/' + j
        if rng.random() < 0.08:
            path, j = '/open', ''
        drv, spec = request(rng, n, at, path, drv, spec, conc=rng.choice([1, 1, 1, 3]))
        specs[drv['Id']] = (j, spec)
        case['Reqs'].append(drv)
    case['End'] = at + 75000
    return case, dict(cfg=cfgs, held=held, specs=specs, pubs=pubspec, preloaded={j['Name'] for j in case['Jwts'] if j['Key']})


def trace(case, m, rec):
    base = dict(cfg=m['cfg'], held=m['held'])
    if isinstance(rec, vv.Crash):
        return dict(base, ev=[dict(e='crash')])
    if rec['boot']:
        return dict(base, ev=[dict(e='boot', note=rec['boot'])])
    ev = []
    order = dict(req=0, fetch=1, fetched=2)
    now = 0
    # a configuration with a static key does not fetch when it starts
    for j in sorted(m['preloaded']):
        if m['cfg'][j]['jwks']:
            ev += [dict(e='fetch', j=j), dict(e='fetched', j=j, whole='no', es=[])]
    for e in sorted(rec['ev'], key=lambda e: (e['t'], order[e['e']])):
        if e['t'] > now:
            now = e['t']
            ev.append(dict(e='time', t=now))
        if e['e'] == 'fetch':
            ev.append(dict(e='fetch', j=e['j']))
        elif e['e'] == 'fetched':
            p = m['pubs'][e['pub']]
            ev.append(dict(e='fetched', j=e['j'], whole='no' if e['note'] in ('cut', 'err', 'none') else p['whole'], es=p['es']))
        else:
            j, spec = m['specs'][e['id']]
            ev.append(dict(e='req', j=j, tok=spec, status=e['status'], ups=e['ups'], id=e['id']))
    ev.append(dict(e='time', t=max(now, case['End'])))
    return dict(base, ev=ev)


def run(c):
    rng = random.Random(vv.SEED * 7919 + int(c.pid[1:]))
    r = vv.model_check('AuthMC', 'AuthMC.cfg', subst={'@STEPS@': '7' if vv.THOROUGH else '5', '@TOKENS@': 'SmallTokens', '@DUMP@': 'FALSE'}, timeout=800)
    c.count(r)
    n_script, n_random = dict(C10=(600, 1400), C11=(300, 1800), C12=(2200, 300))[c.pid]
    if vv.THOROUGH:
        n_script, n_random = n_script * 12, n_random * 12
    def walks(k):
        return vv.tlc('AuthMC', 'AuthMC.cfg', subst={'@STEPS@': '12', '@TOKENS@': 'AllTokens', '@DUMP@': 'TRUE', 'VIEW View\n': '',
                                                     'PROPERTIES C12_Rate C12_NothingLost C12_FailuresChangeNothing\n': ''},
                      workers=1, heap='2g', args=['-simulate', 'num=%d' % (n_script * 2 // vv.CORES + 1), '-depth', '60', '-seed', str(vv.SEED * 100 + k)], timeout=800)
    with cf.ThreadPoolExecutor(vv.CORES) as ex:
        sims = list(ex.map(walks, range(vv.CORES)))
    c.count(*sims)
    offers = OFFERS
    seen, scripts = set(), []
    for x in [y for s in sims for y in s.lines('SCRIPT')]:
        if x not in seen:
            seen.add(x)
            y = json.loads(x)
            if sum(e['a'] == 'req' for e in y) >= 2:
                scripts.append(y)
    rng.shuffle(scripts)
    cases, meta = [], []
    for sc in scripts[:n_script]:
        a, b = from_script(rng, len(cases), sc, offers)
        cases.append(a)
        meta.append(b)
    for _ in range(n_random):
        a, b = from_random(rng, len(cases), c.pid)
        cases.append(a)
        meta.append(b)
    drv = vv.build_driver(['auth.go', 'gateway.go'])
    recs = vv.run_driver(drv, 'auth', cases)
    ok = [k for k in range(len(cases)) if recs[k] is not None]
    if sum(1 for k in ok if isinstance(recs[k], dict) and recs[k]['boot']) > len(ok) // 2:
        raise vv.Broken('the configurations were refused: ' + next(recs[k]['boot'] for k in ok if recs[k]['boot']))
    traces = [trace(cases[k], meta[k], recs[k]) for k in ok]
    rej, runs = vv.validate_traces('AuthTrace', 'AuthTrace.cfg', traces, subst={'@FOCUS@': c.pid})
    c.count(*runs)
    c.traces += len(traces) - len(rej)
    for k in sorted(rej):
        t, pre = traces[k], rej[k]
        bad = t['ev'][pre - 1] if 0 < pre <= len(t['ev']) else 'end'
        rec = recs[ok[k]]
        c.violation('AuthTrace rejects event %d: %s with %s' % (pre, json.dumps(bad)[:500], json.dumps(t['cfg'])),
                    dict(case=cases[ok[k]], trace=t, matched_prefix=pre, crash=rec.text if isinstance(rec, vv.Crash) else None))
    ev = [e for t in traces for e in t['ev']]
    c.extra.update(histories=len(scripts[:n_script]), random_cases=n_random, requests=sum(e['e'] == 'req' for e in ev),
                   admitted=sum(e['e'] == 'req' and e['status'] == 200 for e in ev), refused=sum(e['e'] == 'req' and e['status'] == 401 for e in ev),
                   fetches=sum(e['e'] == 'fetch' for e in ev))
    for k in (0, len(traces) - 1):
        c.sample(dict(cfg=traces[k]['cfg'], events=traces[k]['ev'][:8]))
    c.assumptions += ['virtual time: testing/synctest; computation takes no time', 'the key set endpoint replaces http.DefaultTransport',
                      'crypto of the standard library signs the tokens']


def _e(kid, k, alg='A', cl='fit'):
    return dict(kid=kid, key=k, alg=alg, **{'class': cl})


# the same as Offers in AuthMC
OFFERS = [dict(whole='yes', es=[_e('a', 1)]), dict(whole='yes', es=[_e('a', 1), _e('b', 2)]), dict(whole='yes', es=[_e('a', 3)]),
          dict(whole='yes', es=[_e('c', 3), _e('b', 2), _e('a', 1)]), dict(whole='yes', es=[_e('a', 1), _e('b', 2, 'B')]),
          dict(whole='yes', es=[_e('b', 2, 'B'), _e('c', 3)]), dict(whole='yes', es=[_e('b', 2), _e('c', 3, 'A', 'unfit')]),
          dict(whole='yes', es=[_e('', 2)]), dict(whole='yes', es=[_e('b', 1)]), dict(whole='yes', es=[_e('b', 2), _e('b', 3)]),
          dict(whole='yes', es=[_e('c', 3, 'A', 'odd')]), dict(whole='no', es=[]), dict(whole='open', es=[_e('a', 1), _e('c', 3)])]
