"""C18: the configuration in force. Specification Config; every subset of set values and every shape of the rest that ConfigMC enumerates is
written down in YAML or JSON and given to the real code in one of three ways, what is then in force is judged by ConfigTrace. Which of
several sources counts is asked of the real server by what it serves."""
import concurrent.futures as cf
import hashlib, json, os, random, re, shutil, subprocess
import vv, wire

NUM = dict(dread=('downstream', 'readTimeoutSeconds'), rtt=('downstream', 'roundTripTimeoutSeconds'), didle=('downstream', 'idleTimeoutSeconds'), body=('downstream', 'maxBodyBytes'),
           sock=('upstream', 'socketTimeoutSeconds'), uread=('upstream', 'readTimeoutSeconds'), uidle=('upstream', 'idleTimeoutSeconds'), pool=('upstream', 'poolSize'), attempts=('upstream', 'maxAttempts'))


def scalar(rng, v):
    if v is None:
        return rng.choice(['', 'null', '~'])
    if isinstance(v, bool):
        return 'true' if v else 'false'
    if not isinstance(v, str):
        return json.dumps(v)
    k = rng.random()
    if k < 0.5 and re.fullmatch(r'[A-Za-z/][A-Za-z0-9/._-]*', v) and v.lower() not in ('true', 'false', 'null', 'yes', 'no', 'on', 'off', 'y', 'n'):
        return v
    if k < 0.8 and '\n' not in v:
        return "'%s'" % v.replace("'", "''")
    return json.dumps(v)


def block(rng, v, ind):
    """v in YAML block style, at an indentation"""
    p = ' ' * ind
    if isinstance(v, dict):
        out = ''
        items = list(v.items())
        rng.shuffle(items)
        for k, x in items:
            if rng.random() < 0.05:
                out += p + '# comment: here\n'
            key = k if rng.random() < 0.9 else '"%s"' % k
            if isinstance(x, (dict, list)) and x and rng.random() < 0.95:
                out += '%s%s:\n%s' % (p, key, block(rng, x, ind + rng.choice([1, 2, 4])))
            elif isinstance(x, (dict, list)):
                out += '%s%s: %s\n' % (p, key, json.dumps(x))
            elif isinstance(x, str) and x.count('\n') > 3:
                out += '%s%s: |\n%s' % (p, key, wire.indent(x, ind + 2))
            else:
                out += '%s%s: %s\n' % (p, key, scalar(rng, x))
        return out
    out = ''
    for x in v:
        if isinstance(x, (dict, list)) and x:
            b = block(rng, x, ind + 2)
            if b.startswith(' ' * (ind + 2) + '#') or rng.random() < 0.5:
                out += '%s-\n%s' % (p, b)
            else:
                out += '%s- %s' % (p, b[ind + 2:])
        else:
            out += '%s- %s\n' % (p, json.dumps(x) if isinstance(x, (dict, list)) else scalar(rng, x))
    return out


def write(rng, obj):
    if rng.random() < 0.15:
        return json.dumps(obj, indent=rng.choice([None, 2]))
    return rng.choice(['', '---\n', '# j8a\n']) + block(rng, obj, 0) + rng.choice(['', '', '...\n'])


def dig(s):
    return hashlib.sha1(s.encode()).hexdigest()[:8] if s else ''


def weight(x):
    return '%.12g' % x


def concrete(rng, t, port, certs):
    """an abstract configuration with real values: (what is written, the same as the specification sees it)"""
    a = json.loads(json.dumps(t))
    obj = dict(connection=dict(downstream={}, upstream={}), routes=[], resources={})
    conn = obj['connection']
    for f, v in a['num'].items():
        sec, key = NUM[f]
        if v in ('', '0'):
            a['num'][f] = rng.choice(['', '0'])
            if a['num'][f] == '0':
                conn[sec][key] = 0
            elif rng.random() < 0.1:
                conn[sec][key] = None
        else:
            n = rng.choice([1, 2, 7, 30, 119, 121, 999, 86400, 2 ** 31 - 1, rng.randrange(1, 10 ** 6)])
            if f == 'body':
                n = rng.choice([n, 2 ** 40, 2 ** 62, 2097151])
            conn[sec][key], a['num'][f] = n, str(n)
    if a['port'] not in ('', '0'):
        a['port'] = str(port)
        conn['downstream']['port'] = port
    elif rng.random() < 0.2:
        conn['downstream']['port'] = 0
    if a['mode'] or rng.random() < 0.1:
        conn['downstream']['mode'] = a['mode']
    if a['skip']:
        conn['upstream']['tlsInsecureSkipVerify'] = a['skip'] == 'true'
    if a['mode'].upper() == 'TLS' or rng.random() < 0.1:
        cert, key = rng.choice(certs)
        conn['downstream'].update(cert=cert, key=key)
        a['cert'] = dig(cert.strip()) + dig(key.strip())
    pol = {}
    for p in a['policies']:
        if p['name'] != 'default':
            p['name'] = rng.choice(['ab', 'blue-green', 'X y', 'p'])
        ws = rng.choice([None, [0.5, 0.5], [0.05, 0.95], [1], [0.2, 0.3, 0.5], [1, 0], [0.333, 0.333, 0.334]])
        if ws:
            p['weights'] = [dict(label=rng.choice(['green', 'blue', 'default', 'x y', 'v2']) + str(i), weight=weight(w)) for i, w in enumerate(ws)]
        pol[p['name']] = [dict(label=w['label'], weight=float(w['weight']) if float(w['weight']) % 1 else int(float(w['weight']))) for w in p['weights']]
    if pol or rng.random() < 0.1:
        obj['policies'] = pol
    names = ['up', 'users', 'v1.customer', 'a b', 'r']
    rng.shuffle(names)
    res = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        res.append(names.pop())
    shapes = a['resources'] or [dict(name='r', urls=[dict(scheme='http', host='h', port='1', labels=[], name='')])]
    a['resources'] = []
    for n in res:
        urls, out = json.loads(json.dumps(rng.choice(shapes)['urls'])), []
        rng.shuffle(urls)
        for u in urls:
            u.update(host=rng.choice(['localhost', '10.1.2.3', 'api.example.com', '::1', 'h']), port=str(rng.choice([80, 443, 8080, 65535, 1])), labels=rng.sample(['blue', 'green', 'v1', 'default', 'x y'], rng.choice([0, 0, 1, 2])))
            w = dict(host=u['host'], port=int(u['port']))
            if u['scheme'] or rng.random() < 0.2:
                w['scheme'] = u['scheme']
            o = dict(url=w)
            if u['labels']:
                o['labels'] = u['labels']
            out.append(o)
        obj['resources'][n] = out
        a['resources'].append(dict(name=n, urls=urls))
    jwt = rng.random() < 0.2
    if jwt:
        obj['jwt'] = {'sec': dict(alg='HS256', key='a secret')}
    chars = 'abcdefgh123-_/.'
    used = set()
    for r in a['routes']:
        n = r['len']
        # same length, other letters
        while r['path']:
            r['path'] = ('/' if r['slash'] else '') + ''.join(rng.choice(chars) for _ in range(n - (1 if r['slash'] else 0)))
            if r['path'] not in used and (r['slash'] or not r['path'].startswith('/')):
                used.add(r['path'])
                break
        if r['path'] and rng.random() < 0.5 and n > 1:
            more = rng.choice(['/x', '[0-9]', '/very/long/path/of/a/route', '$', '.*'])
            r['path'] += more
            r['len'] += len(more)
        r['resource'] = rng.choice(res + ['nosuch'])
        r['transform'] = rng.choice(['', '', '/', '/v1', '/a/b/'])
        r['policy'] = rng.choice([''] + list(pol))
        r['jwt'] = rng.choice(['', 'sec']) if jwt else ''
        o = {k: r[k] for k in ('path', 'resource', 'transform', 'policy', 'jwt') if r[k] or (k == 'path') or rng.random() < 0.05}
        obj['routes'].append(o)
    return obj, a


def seen(d):
    """the configuration in force as the specification sees it"""
    low = lambda o: {k.lower(): low(v) for k, v in o.items()} if isinstance(o, dict) else [low(x) for x in o] if isinstance(o, list) else o
    rows = lambda m: m or {}
    D = {k: low(v) if k not in ('Policies', 'Resources') else v for k, v in d.items()}
    con = D['Connection']
    num = {f: str(con[s][k.lower()]) for f, (s, k) in NUM.items()}
    dn = con['downstream']
    rs = [dict(path=r['path'], len=len(r['path']), slash=r['path'].startswith('/'), transform=r['transform'], resource=r['resource'], policy=r['policy'], jwt=r['jwt']) for r in D['Routes']]
    return dict(num=num, port=str(dn['port']), mode=dn['mode'], skip=str(con['upstream']['tlsinsecureskipverify']).lower(),
                cert=dig(dn['cert'].strip()) + dig(dn['key'].strip()),
                policies=[dict(name=k, weights=[dict(label=w['label'], weight=weight(w['weight'])) for w in low(v) or []]) for k, v in rows(D['Policies']).items()],
                routes=rs,
                resources=[dict(name=k, urls=[dict(scheme=u['url']['scheme'], host=u['url']['host'], port=str(u['url']['port']), labels=u['labels'] or [], name=u['name']) for u in low(v)])
                           for k, v in rows(D['Resources']).items()])


def build():
    out, ov = vv.path('j8a-conf'), vv.path('conf-overlay.json')
    json.dump({'Replace': {os.path.join(vv.REPO, 'cmd/j8a/main.go'): os.path.join(vv.HARNESS, 'conf', 'main.go')}}, open(ov, 'w'))
    p = subprocess.run(['go', 'build', '-overlay', ov, '-o', out, './cmd/j8a'], cwd=vv.REPO, env=vv.go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise vv.Broken('server does not compile:\n' + p.stdout[-4000:])
    return out


def start(binary, k, via, text, others):
    d = vv.path('conf-%d' % k)
    for attempt in range(3):
        os.makedirs(d)
        e = dict(PATH='/usr/bin:/bin', HOME=d, VV_DUMP=os.path.join(d, 'dump'), LOGLEVEL='WARN')
        cmd = [binary]
        have = dict(others)
        have[via] = text
        if 'arg' in have:
            open(os.path.join(d, 'a.yml'), 'w').write(have['arg'])
            cmd += ['-c', 'a.yml']
        if 'env' in have:
            e['J8ACFG_YML'] = have['env']
        if 'dflt' in have:
            open(os.path.join(d, 'j8acfg.yml'), 'w').write(have['dflt'])
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
        except subprocess.TimeoutExpired:
            raise vv.Broken('a start does not end')
        dump = open(os.path.join(d, 'dump')).read() if os.path.exists(os.path.join(d, 'dump')) else ''
        shutil.rmtree(d)
        # a port taken by somebody else
        if p.returncode == 7 or (b'address already in use' not in p.stdout and b'permission denied' not in p.stdout):
            break
    return dump, p.returncode, p.stdout.decode(errors='replace')[-1500:]


def judge(c, what, ts, info):
    rej, runs = vv.validate_traces('ConfigTrace', 'ConfigTrace.cfg', ts)
    c.count(*runs)
    c.traces += len(ts) - len(rej)
    for k in sorted(rej):
        c.violation('ConfigTrace rejects event %d (%s): written %s in force %s' % (rej[k], what, json.dumps(ts[k]['texts'])[:400], json.dumps(ts[k]['ev'])[:500]), dict(trace=ts[k], of=info[k]))


def values(c, rng, plans, certs):
    binary = build()
    jobs = []
    ports = list(range(22000, 32000))
    rng.shuffle(ports)
    taken = [p for p in ports[:len(plans)]]
    for i, p in enumerate(plans):
        obj, a = concrete(rng, p['text'], taken[i], certs)
        via = rng.choice(['arg', 'env', 'dflt'])
        lower = ['arg', 'env', 'dflt'][['arg', 'env', 'dflt'].index(via) + 1:]
        others = {o: write(rng, dict(connection=dict(downstream=dict(readTimeoutSeconds=77, mode='TLS'), upstream=dict(maxAttempts=66)), policies=dict(other=[]), routes=[dict(path='/other', resource='other')],
                                     resources=dict(other=[dict(url=dict(host='other', port=1))]))) for o in lower if rng.random() < 0.3}
        jobs.append((i, via, write(rng, obj), others, a))

    def lane(js):
        return [(j, start(binary, j[0], j[1], j[2], j[3])) for j in js]
    # the default ports one after the other
    lanes = {}
    free = 0
    for j in jobs:
        a = j[4]
        if a['port'] in ('', '0'):
            key = 'tls' if a['mode'].upper() == 'TLS' else 'http'
        else:
            free += 1
            key = free % 6
        lanes.setdefault(key, []).append(j)
    done = []
    with cf.ThreadPoolExecutor(8) as ex:
        for r in ex.map(lane, sorted(lanes.values(), key=len, reverse=True)):
            done += r
    vv.log('%d starts' % len(done))
    ts, info = [], []
    for (i, via, text, others, a), (dump, rc, out) in done:
        if dump:
            ev = [dict(e='up', c=seen(json.loads(dump)))]
            if rc == 7:
                ev.append(dict(e='listen', port=ev[0]['c']['port']))
            else:
                ev.append(dict(e='fails', v=rc))
        else:
            ev = [dict(e='fails', v=rc)]
        n = dict(arg=1, env=2, dflt=3)
        ts.append(dict(files=dict(arg=1 if via == 'arg' else 0, env=1 if via == 'env' else 0, dflt=1 if via == 'dflt' else 0), texts=[a], ev=ev))
        info.append(dict(text=text, via=via, others=others, rc=rc, out=out))
    judge(c, 'start', ts, info)
    c.sample(ts[0])
    c.extra.update(starts=len(ts), default_ports=len(lanes.get('tls', [])) + len(lanes.get('http', [])))


def sources(c, rng, plans):
    """the real server, with several sources that each bring a route of their own"""
    cases, todo = [], []
    for i, p in enumerate(plans):
        names = ['arg', 'env', 'dflt']
        texts = {}
        for n in names:
            texts[n] = wire.yaml('  - path: /%s\n    resource: about\n' % n, wire.resource('up', 0), max_body=rng.choice([None, 10]), attempts=rng.choice([1, 3]))
        cs = dict(Id=i, Yaml='', YamlVia='none', Env={}, Args=[], Files={}, Ups=[{}], Conc=1)
        if p['files']['arg']:
            cs['Files']['mine.yml'] = texts['arg']
            cs['Args'] = rng.choice([['-c', 'mine.yml'], ['-c=mine.yml'], ['-c', '${DIR}/mine.yml']])
        if p['files']['env']:
            cs['Env']['J8ACFG_YML'] = texts['env']
        if p['files']['dflt']:
            cs['Files']['j8acfg.yml'] = texts['dflt']
        cs['Conns'] = [dict(Reqs=[dict(Id=k, Method='GET', Raw=[dict(B=vv.b64(wire.head('GET /%s HTTP/1.1' % n, [['Host', 'h']])))]) for k, n in enumerate(names)])]
        cases.append(cs)
    recs = wire.run(cases)
    ts, info = [], []
    for p, cs, rec in zip(plans, cases, recs):
        if isinstance(rec, vv.Crash):
            raise vv.Broken(rec.text[-2000:])
        if not rec['listening']:
            ev = [dict(e='fails', v=rec['exit'])]
        else:
            st = {s['id']: s['resp']['status'] if s['resp'] else 0 for s in rec['reqs']}
            ev = [dict(e='serves', v=[st.get(k) == 200 for k in range(3)])]
        ts.append(dict(files=p['files'], texts=[p['text']] * 3, ev=ev))
        info.append(dict(case=cs, rec=rec))
    judge(c, 'sources', ts, info)
    c.extra.update(source_runs=len(ts))


def run(c):
    rng = random.Random(vv.SEED * 61 + 18)
    got = {}
    for part in ('numbers', 'shapes', 'sources'):
        r = vv.model_check('ConfigMC', 'ConfigMC.cfg', subst={'@PART@': part}, timeout=600)
        c.count(r)
        got[part] = [json.loads(x) for x in r.lines('CONF')]
        rng.shuffle(got[part])
    n = 900 if not vv.THOROUGH else 9000
    plans = got['numbers'][:n] + got['shapes'][:n]
    # less of the defaults, which have to wait for each other
    rng.shuffle(plans)
    m = wire.certs([dict(Name='r', CN='root', CA=True, Key='p256', From=-86400, Until=wire.YEAR), dict(Name='l', Issuer='r', CN='x', DNS=['x'], Key='p256', From=-86400, Until=200 * 86400),
                    dict(Name='s', CN='self', DNS=['y'], CA=True, Key='rsa', From=-86400, Until=wire.YEAR)])
    certs = [(m['l']['Cert'] + m['r']['Cert'], m['l']['Key']), (m['s']['Cert'], m['s']['Key'])]
    values(c, rng, plans, certs)
    sources(c, rng, got['sources'] * 4)
    c.assumptions += ['values of the wrong type, negative values, other modes and other schemes are not written down', 'the order of routes with equally long paths is left open']
