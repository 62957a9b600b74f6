"""C19: which configurations the server starts with. Specification Boot; every combination of sources and every combination of
departures from a plain configuration (BootMC) is given to the real server, whose start is judged by BootTrace."""
import json, random
import vv, wire

DAY = 86400


def certificates():
    """cert kind -> list of (cert, key)"""
    leaf = dict(CN='proxy.example', DNS=['proxy.example', 'www.proxy.example'], From=-DAY, Until=300 * DAY)
    s = []
    for k in ('rsa', 'p256', 'p384'):
        s += [dict(leaf, Name='self' + k, CA=True, Key=k),
              dict(Name='root' + k, CN='root ' + k, CA=True, Key='p256', From=-DAY, Until=900 * DAY),
              dict(Name='inter' + k, Issuer='root' + k, CN='inter ' + k, CA=True, Key='p384', From=-DAY, Until=800 * DAY),
              dict(leaf, Name='byroot' + k, Issuer='root' + k, Key=k),
              dict(leaf, Name='byinter' + k, Issuer='inter' + k, Key=k),
              dict(leaf, Name='other' + k, Issuer='root' + k, Key=k),
              dict(leaf, Name='expired' + k, Issuer='inter' + k, Key=k, From=-9 * DAY, Until=-60),
              dict(leaf, Name='notyet' + k, Issuer='inter' + k, Key=k, From=3600, Until=90 * DAY),
              dict(Name='xinter' + k, Issuer='root' + k, CN='xinter ' + k, CA=True, Key='p256', From=-9 * DAY, Until=-60),
              dict(leaf, Name='byxinter' + k, Issuer='xinter' + k, Key=k),
              dict(Name='xroot' + k, CN='xroot ' + k, CA=True, Key='p256', From=-9 * DAY, Until=-60),
              dict(leaf, Name='byxroot' + k, Issuer='xroot' + k, Key=k),
              # another CA of the same name
              dict(Name='twin' + k, CN='root ' + k, CA=True, Key='p256', From=-DAY, Until=900 * DAY),
              dict(leaf, Name='forged' + k, Issuer='twin' + k, Key=k)]
    m = wire.certs(s)
    r = {}
    for k in ('rsa', 'p256', 'p384'):
        def put(kind, key, *names):
            r.setdefault(kind, []).append((''.join(m[n + k]['Cert'] for n in names), m[key + k]['Key'] if key else ''))
        put('self', 'self', 'self')
        put('root', 'byroot', 'byroot', 'root')
        put('inter', 'byinter', 'byinter', 'inter', 'root')
        put('shuffled', 'byinter', 'byinter', 'root', 'inter')
        put('extra', 'byinter', 'byinter', 'twin', 'inter', 'xroot', 'root')
        r.setdefault('neither', []).append(('', ''))
        r.setdefault('nocert', []).append(('', m['byroot' + k]['Key']))
        put('nokey', '', 'byroot', 'root')
        put('expired', 'expired', 'expired', 'inter', 'root')
        put('notyet', 'notyet', 'notyet', 'inter', 'root')
        put('expiredinter', 'byxinter', 'byxinter', 'xinter', 'root')
        put('expiredroot', 'byxroot', 'byxroot', 'xroot')
        put('noroot', 'byinter', 'byinter', 'inter')
        put('noroot', 'byroot', 'byroot')
        put('nointer', 'byinter', 'byinter', 'root')
        put('forged', 'forged', 'forged', 'root')
        put('mismatch', 'other', 'byroot', 'root')
        put('mismatch', 'root', 'byroot', 'root')
        put('mismatch', 'byroot', 'root', 'byroot')
        good, key = m['byroot' + k]['Cert'] + m['root' + k]['Cert'], m['byroot' + k]['Key']
        lines = good.strip().split('\n')
        for bad in ('garbage', good.replace('CERTIFICATE', 'CERTIFICAT'), '\n'.join(lines[:len(lines) // 4]), '\n'.join(lines[:1] + ['AAAA' + lines[1][4:]] + lines[2:]),
                    '-----BEGIN CERTIFICATE-----\nTUlJ\n-----END CERTIFICATE-----'):
            r.setdefault('garbage', []).append((bad, key))
        kl = key.strip().split('\n')
        for bad in ('garbage', '\n'.join(kl[:-1]), '\n'.join(kl[:1] + kl[2:]), m['byroot' + k]['Pub'], m['byroot' + k]['Cert']):
            r.setdefault('keygarbage', []).append((good, bad))
        r.setdefault('onlykeys', []).append((key, key))
        r.setdefault('pub', []).append(m['byroot' + k]['Pub'])
        r.setdefault('jwk', []).append(m['byroot' + k]['Jwk'])
        r.setdefault('pem', []).append(m['byroot' + k]['Cert'])
    return r


def jwt_yaml(rng, kind, certs):
    rsa, p256, p384 = certs['pub']
    if kind.startswith('set'):
        return jwks_yaml(rng, kind, certs)
    e = dict(hs=('HS256', 'a secret'), rs=('RS256', rsa), es=('ES256', p256), badalg=(rng.choice(['RS255', 'rs256', 'NONE', 'HS1', 'EdDSA']), 'x'),
             noalg=(None, rng.choice(['a secret', None])), nokey=(rng.choice(['RS256', 'HS256', 'ES512']), None), badpem=('RS256', rng.choice(['x', rsa[:100], rsa.replace('PUBLIC', 'PRIVATE')])),
             wrongtype=rng.choice([('RS256', p256), ('ES256', rsa)]), badskew=('HS256', 's'), nonewithkey=('none', 's'), badcert=('RS256', certs['pem'][0].replace('MII', 'AAA')),
             curve=rng.choice([('ES256', p384), ('ES384', p256)]))
    e['none-alg'] = ('none', None)
    alg, key = e[kind]
    y = ''
    if alg:
        y += '    alg: %s\n' % alg
    if key:
        y += '    key: |\n' + wire.indent(key, 6)
    if kind == 'badskew':
        y += '    acceptableSkewSeconds: "%s"\n' % rng.choice(['-1', 'x', '1.5'])
    return y or '    {}\n'


SKEW = ['', '', '0', '120']


def jwks_yaml(rng, kind, certs):
    """a jwt configuration with a key set, what the endpoint says is in ups"""
    rsa, p256, p384 = certs['jwk']
    alg, k = rng.choice([('RS256', rsa), ('PS512', rsa), ('ES256', p256), ('ES384', p384)])
    keys = [dict(k, alg=alg, kid=kid) for kid in rng.sample(['a', 'b', 'c'], rng.choice([1, 2]))]
    status, body, mode = '200 OK', None, 'http'
    y = '    jwksUrl: http://127.0.0.1:${UP1}%s\n' % rng.choice(['', '/', '/.well-known/jwks.json', '/keys?v=1'])
    skew = rng.choice(SKEW)
    if kind == 'setdown':
        mode = 'closed'
        if rng.random() < 0.3:
            y = '    jwksUrl: %s\n' % rng.choice(['/keys', 'keys', 'file:///etc/keys', '"http://"', '":"'])
    elif kind == 'setlater':
        # the keys are fetched when they are needed
        mode = rng.choice(['http', 'closed'])
        y += '    key: |\n' + wire.indent(certs['pub'][0] if k is rsa else certs['pub'][1 if k is p256 else 2], 6)
    elif kind == 'setskew':
        skew = rng.choice(['-1', 'x', '1.5'])
        mode = rng.choice(['http', 'closed'])
    elif kind == 'setunfit':
        keys[0]['alg'] = rng.choice([a for a in ('RS256', 'PS256', 'ES256', 'HS256', '', 'RSA-OAEP') if a != alg])
    elif kind == 'setcurve':
        alg, k = rng.choice([('ES256', p384), ('ES384', p256), ('ES512', p256)])
        keys = [dict(k, alg=alg, kid='a')]
    elif kind == 'setnone':
        body = rng.choice(['{"keys":[]}', '{}', 'null', '', '{"keys":null}', 'no keys', '<html>', '[]'])
    elif kind == 'seterror':
        status = rng.choice(['500 Internal Server Error', '404 Not Found', '403 Forbidden', '503 Service Unavailable'])
    if kind != 'setnoalg':
        y += '    alg: %s\n' % alg
    if skew:
        y += '    acceptableSkewSeconds: "%s"\n' % skew
    body = json.dumps(dict(keys=keys)) if body is None else body
    certs['ups'].append(dict(Mode=mode, Say=vv.b64(('HTTP/1.1 %s\r\nContent-Type: application/json\r\nContent-Length: %d\r\n\r\n%s' % (status, len(body), body)).encode())))
    return y


def config(rng, conf, certs):
    paths = dict(plain='/api', noslash='api/v1', regex=r'/a[bc]+/(x|y)\d{2,3}$', bad=rng.choice(['/a(b', '/[a', '/a**', '(?<n', '/x{2,1}', 'a)b', '/\\8', '/(?P<a', '/[z-a]']))
    bad = paths['bad']
    rs = [dict(path=paths.get(conf['path'], '/api')), dict(path='/other/path'), dict(path='/about', resource='about')]
    if conf['path'] == 'bad2':
        rs[1]['path'] = bad
    if conf['path'] == 'bad3':
        rs.append(dict(path=bad + '/' * 30))
    t = conf['transform']
    if t == 'slash':
        rs[0]['transform'] = rng.choice(['/', '/v1', '/v1/'])
    elif t != 'none':
        rs[1 if t == 'bad2' else 0]['transform'] = rng.choice(['v1/', '../x']) if t == 'relative' else rng.choice(['v1', 'http://x/', '?', ' /v1', '-/'])
    r = conf['ref']
    if r == 'known':
        rs[0]['jwt'] = 'good'
    elif r != 'none':
        rs[1 if r == 'unknown2' else 0]['jwt'] = 'GOOD' if r == 'othercase' else 'nosuch'
    jwts = []
    if r in ('known', 'othercase') or rng.random() < 0.1:
        jwts.append(('good', jwt_yaml(rng, rng.choice(['hs', 'rs', 'es']), certs)))
    if conf['jwt'] != 'none':
        jwts.append((rng.choice(['a', 'zz']), jwt_yaml(rng, conf['jwt'], certs)))
    rng.shuffle(jwts)
    rng.shuffle(rs)
    y = 'connection:\n  downstream:\n    port: ${PORT}\n'
    if conf['mode'] != 'absent':
        y += '    mode: %s\n' % conf['mode']
    cert, key = rng.choice(certs[conf['cert']])
    if cert:
        y += '    cert: |\n' + wire.indent(cert, 6)
    if key:
        y += '    key: |\n' + wire.indent(key, 6)
    if jwts:
        y += 'jwt:\n' + ''.join('  %s:\n%s' % j for j in jwts)
    y += 'routes:\n'
    for x in rs:
        y += "  -\n    path: '%s'\n    resource: %s\n" % (x['path'], x.get('resource', 'up'))
        for f in ('transform', 'jwt'):
            if f in x:
                y += "    %s: '%s'\n" % (f, x[f])
    return y + 'resources:\n' + wire.resource('up', 0)


def content(rng, kind, good):
    head = good.split('routes:')[0]
    return dict(good=good, empty=rng.choice(['', '\n', '# nothing\n']), garbage=rng.choice(['\x00\x01', ': : :\n\t', 'routes: [', '%', '}{', '@']), noroutes=head, emptyroutes=head + 'routes: []\n',
                nullroutes=head + 'routes:\n', unclosed=good + '\nbad: "unclosed\n', scalar=rng.choice(['x', '7', '[]', '""', 'null']))[kind]


def case(rng, i, b, certs):
    certs['ups'] = [{}]
    good = config(rng, b['conf'], certs)
    s = b['src']
    c = dict(Id=i, Boot=True, Yaml='', YamlVia='none', Env={}, Args=[], Files={}, Ups=certs['ups'])
    if s['arg'] != 'none':
        where = dict(missing='${DIR}/nosuch.yml', dir='${DIR}').get(s['arg'], rng.choice(['${DIR}/my.yml', 'my.yml', './my.yml']))
        c['Args'] = rng.choice([['-c', where], ['-c=' + where], ['--c', where]])
        if s['arg'] not in ('missing', 'dir'):
            c['Files']['my.yml'] = content(rng, s['arg'], good)
    if s['env'] != 'none':
        c['Env']['J8ACFG_YML'] = content(rng, s['env'], good).replace('\x00', '\x02')
    if s['dflt'] == 'dir':
        c['Files']['j8acfg.yml/'] = ''
    elif s['dflt'] != 'none':
        c['Files']['j8acfg.yml'] = content(rng, s['dflt'], good)
    return c


def run(c):
    rng = random.Random(vv.SEED * 53 + 19)
    r = vv.model_check('BootMC', 'BootMC.cfg', subst={'@DEP@': '2' if not vv.THOROUGH else '5'}, timeout=1500)
    c.count(r)
    plans = [json.loads(x) for x in r.lines('BOOT')]
    rng.shuffle(plans)
    plain = lambda p: sum(v not in ('none', 'plain', 'absent') for k, v in p['conf'].items() if k != 'cert')
    single = [p for p in plans if list(p['src'].values()).count('none') == 2 and plain(p) <= 1]
    srcs = [p for p in plans if list(p['src'].values()).count('none') != 2]
    rest = [p for p in plans if list(p['src'].values()).count('none') == 2 and plain(p) > 1]
    q = (10000, 10000, 4000) if not vv.THOROUGH else (10000, 10000, 12000)
    plans = single[:q[0]] + srcs[:q[1]] + rest[:q[2]]
    certs = certificates()
    cases = [case(rng, i, p, certs) for i, p in enumerate(plans)]
    for attempt in range(3):
        recs = wire.run(cases)
        ts = []
        for p, rec in zip(plans, recs):
            if isinstance(rec, vv.Crash):
                raise vv.Broken(rec.text[-2000:])
            ev = []
            if rec['listening']:
                ev.append(dict(e='listen'))
            if not rec['alive']:
                ev.append(dict(e='exit', code=rec['exit']))
            elif not rec['listening']:
                ev.append(dict(e='hang'))
            ts.append(dict(src=p['src'], conf=p['conf'], ev=ev))
        rej, runs = vv.validate_traces('BootTrace', 'BootTrace.cfg', ts)
        c.count(*runs)
        if attempt == 0:
            c.traces += len(ts) - len(rej)
            c.sample(*ts[:2])
            c.extra.update(starts=len(ts), listened=sum(bool(x['listening']) for x in recs), refused=sum(not x['alive'] for x in recs))
        if not rej:
            return
        # a port taken by somebody else also ends a start: the start has to fail again, on another port
        again = [k for k in sorted(rej)]
        bad = [(plans[k], cases[k], recs[k], ts[k]) for k in again]
        if attempt == 2:
            for p, x, rec, t in bad:
                c.violation('BootTrace rejects the start of %s: %s' % (json.dumps([p['src'], p['conf']]), json.dumps(t['ev'])), dict(case=x, rec=rec))
        plans, cases = [plans[k] for k in again], [cases[k] for k in again]
