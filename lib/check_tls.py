"""C21: TLS handshakes and the daily check of certificates. Specifications TlsServe (clients that TLC enumerates shake hands with the real
server) and TlsHealth (chains that TLC enumerates are watched by the real code for weeks of virtual time, and at the start of the
real server); TLC judges the traces."""
import json, random, re
import vv, wire

DAY = 1440
SUITE = {}
for _l in '''0005 TLS_RSA_WITH_RC4_128_SHA|000a TLS_RSA_WITH_3DES_EDE_CBC_SHA|002f TLS_RSA_WITH_AES_128_CBC_SHA|0035 TLS_RSA_WITH_AES_256_CBC_SHA
003c TLS_RSA_WITH_AES_128_CBC_SHA256|009c TLS_RSA_WITH_AES_128_GCM_SHA256|009d TLS_RSA_WITH_AES_256_GCM_SHA384|c007 TLS_ECDHE_ECDSA_WITH_RC4_128_SHA
c009 TLS_ECDHE_ECDSA_WITH_AES_128_CBC_SHA|c00a TLS_ECDHE_ECDSA_WITH_AES_256_CBC_SHA|c011 TLS_ECDHE_RSA_WITH_RC4_128_SHA|c012 TLS_ECDHE_RSA_WITH_3DES_EDE_CBC_SHA
c013 TLS_ECDHE_RSA_WITH_AES_128_CBC_SHA|c014 TLS_ECDHE_RSA_WITH_AES_256_CBC_SHA|c023 TLS_ECDHE_ECDSA_WITH_AES_128_CBC_SHA256|c027 TLS_ECDHE_RSA_WITH_AES_128_CBC_SHA256
c02f TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256|c02b TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256|c030 TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384|c02c TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384
cca8 TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256|cca9 TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305_SHA256
1301 TLS_AES_128_GCM_SHA256|1302 TLS_AES_256_GCM_SHA384|1303 TLS_CHACHA20_POLY1305_SHA256'''.replace('\n', '|').split('|'):
    _n, _t = _l.split()
    SUITE[_t] = int(_n, 16)
SUITE_NAME = {v: k for k, v in SUITE.items()}

UNITS = dict(year=365 * DAY * 60, week=7 * DAY * 60, day=DAY * 60, hour=3600, minute=60, second=1)


def span(text):
    """what a duration in words says, as minutes from and to; -1, -1 if it can not be understood"""
    w = text.split()
    if not w or len(w) % 2:
        return -1, -1
    tot, unit = 0.0, None
    for n, u in zip(w[::2], w[1::2]):
        u = u.rstrip('s')
        if not n.isdigit() or (u not in UNITS and u not in ('millisecond', 'microsecond')):
            return -1, -1
        unit = UNITS.get(u, 1)
        if u in UNITS:
            tot += int(n) * unit
    return int(tot // 60), int(-(-(tot + unit) // 60))


SEG = re.compile(r'\[(\d+)/(\d+)\] [^#\[]*#([0-9A-Fa-f-]+) .*?expires in (.*?)\. ')


def links(text, serials):
    r = []
    for i, of, ser, rest in SEG.findall(text + ' '):
        s = int(ser.replace('-', ''), 16)
        first = 'earliest' in rest
        lo, hi = span(rest.split(',')[0])
        r.append(dict(i=int(i), of=int(of), link=serials.index(s) + 1 if s in serials else 0, lo=lo, hi=hi, first=first))
    return r


def serial(rng, used):
    while True:
        n = rng.choice([1, 1, 2, 3, 8, 15, 16, 17, 31, 32, 33, 39, 40])
        s = rng.getrandbits(4 * n) >> (1 if n == 40 else 0)
        if rng.random() < 0.2:
            s = rng.choice([1, 9, 10, 15, 16, 0x7f, 0x80, 0xff, 0x100, 2 ** 31, 2 ** 32 - 1, 2 ** 63 - 1, 2 ** 63, 2 ** 64, 2 ** 64 + 1, 2 ** 158])
        if 0 < s < 2 ** 159 and s not in used:
            used.append(s)
            return s


def chain(rng, plan):
    """certificates for a plan: the links of the chain, the server's own first, and others"""
    ends, n, used = plan['ends'], len(plan['ends']), []
    certs, serials = [], []
    for k in range(n):
        serials.append(serial(rng, used))
    for k in range(n - 1, -1, -1):
        frm = -rng.choice([1, DAY, 20 * DAY, 500 * DAY, 4000 * DAY])
        cn = rng.choice(['link %d', 'CN-%d', 'Löschblatt %d', 'x%d.example', '%d']) % k
        certs.append(dict(Name='c%d' % k, Issuer='c%d' % (k + 1) if k < n - 1 else '', CN=cn, CA=k > 0 or n == 1, Serial='%x' % serials[k], From=frm, Until=ends[k]))
    file = ['c%d' % k for k in range(n)]
    x = plan['extra']
    first = min(ends)
    if x == 'shuffled' or rng.random() < 0.2:
        tail = file[1:]
        rng.shuffle(tail)
        file = file[:1] + tail
    if x in ('otherroot', 'oldroot', 'otherleaf'):
        until = dict(otherroot=rng.choice([first + 7, 99 * 365 * DAY]), oldroot=rng.choice([-1, max(1, first - 5), 3 * DAY, 1]), otherleaf=rng.choice([2, 300 * DAY]))[x]
        certs.append(dict(Name='x', Issuer='', CN='extra', CA=x != 'otherleaf', Serial='%x' % serial(rng, used), From=-5000 * DAY, Until=until))
        file.insert(rng.randrange(1, len(file) + 1), 'x')
    return certs, file, serials


def health_trace(plan, serials, rec, run):
    ev = []
    if isinstance(rec, vv.Crash):
        return dict(chain=plan['ends'], ev=[dict(e='crash', v=rec.text[:500])])
    for l in rec['lines']:
        ls = links(l['text'], serials)
        if 'Snapshot' in l['text'] or ls:
            ev.append(dict(e='report', t=l['t'] // 60, level=l['level'], links=ls))
    ev.append(dict(e='end', t=run))
    return dict(chain=plan['ends'], ev=ev)


def judge(c, module, what, ts, info):
    rej, runs = vv.validate_traces(module, module + '.cfg', ts)
    c.count(*runs)
    c.traces += len(ts) - len(rej)
    for k in sorted(rej):
        pre = rej[k]
        nxt = ts[k]['ev'][pre - 1] if 0 < pre <= len(ts[k]['ev']) else 'end'
        c.violation('%s rejects event %d (%s): %s' % (module, pre, what, json.dumps(nxt)[:600]), dict(trace=ts[k], of=info[k]))
    return rej


def health(c, rng):
    ends = '{1, 719, 43199, 43200, 43201, 66240, 600000, 6000000}' if not vv.THOROUGH else \
        '{0, 1, 719, 1440, 4321, 43198, 43199, 43200, 43201, 43202, 44640, 66240, 571000, 600000, 6000000, 60000000}'
    r = vv.model_check('TlsHealthMC', 'TlsHealthMC.cfg', subst={'@ENDS@': ends, '@LEN@': '4', '@HORIZON@': str(40 * DAY), '@EXTRAS@': '{"none"}'}, timeout=800)
    c.count(r)
    plans = [json.loads(x) for x in r.lines('CHAIN')]
    r = vv.model_check('TlsHealthMC', 'TlsHealthMC.cfg', subst={'@ENDS@': '{1, 43199, 43200, 66240, 600000, 60000000}', '@LEN@': '4', '@HORIZON@': '0',
                                                              '@EXTRAS@': '{"otherroot", "oldroot", "otherleaf", "shuffled"}'}, timeout=800)
    c.count(r)
    more = [json.loads(x) for x in r.lines('CHAIN')]
    rng.shuffle(plans)
    rng.shuffle(more)
    n = 700 if not vv.THOROUGH else 12000
    short = [p for p in plans + more if len(p['ends']) == 1]
    plans = short + plans[:n] + more[:n]
    cases, serials = [], []
    for p in plans:
        certs, file, ser = chain(rng, p)
        run = rng.choice([DAY // 2, 3 * DAY, 20 * DAY, 33 * DAY, 47 * DAY, 60 * DAY] + ([430 * DAY] if rng.random() < 0.1 else []))
        cases.append(dict(Certs=certs, File=file, Run=run))
        serials.append(ser)
    drv = vv.build_driver(['tls.go'])
    recs = vv.run_driver(drv, 'tls', cases)
    ts = [health_trace(p, s, rec, x['Run']) for p, s, rec, x in zip(plans, serials, recs, cases)]
    judge(c, 'TlsHealthTrace', 'watched in virtual time', ts, [dict(case=x, rec=r if not isinstance(r, vv.Crash) else r.text[:3000]) for x, r in zip(cases, recs)])
    c.sample(ts[0])
    c.extra.update(chains=len(ts), reports=sum(len(t['ev']) - 1 for t in ts))


def server_yaml(cert, key):
    return wire.yaml('  - path: /about\n    resource: about\n', wire.resource('up', 0)).replace(
        'mode: HTTP\n', 'mode: TLS\n    cert: |\n' + wire.indent(cert, 6) + '    key: |\n' + wire.indent(key, 6))


def serve(c, rng):
    """the real server: handshakes, and the report at its start"""
    r = vv.model_check('TlsServeMC', 'TlsServeMC.cfg', subst={'@FEW@': '2' if not vv.THOROUGH else '3'})
    c.count(r)
    hellos = [json.loads(x) for x in r.lines('HELLO')]
    rng.shuffle(hellos)
    few = [h for h in hellos if len(h['offered']) != 2]
    hellos = few + [h for h in hellos if len(h['offered']) == 2]
    hellos = hellos[:1600 if not vv.THOROUGH else 12000]
    servers = []
    for key in ('rsa', 'ec'):
        for n in (2, 3, 4):
            ends = [rng.choice([29, 31, 100, 400]) * DAY + DAY // 2 for _ in range(n)]
            certs, file, ser = chain(rng, dict(ends=ends, extra='none'))
            made = wire.certs([dict(Name=x['Name'], Issuer=x['Issuer'], CN=x['CN'], DNS=['proxy.example'], CA=x['CA'], Serial=str(int(x['Serial'], 16)),
                                    Key='rsa' if key == 'rsa' and x['Name'] == 'c0' else rng.choice(['p256', 'p384']), From=x['From'] * 60, Until=x['Until'] * 60) for x in certs])
            servers.append(dict(key=key, ends=ends, serials=ser, yaml=server_yaml(''.join(made[f]['Cert'] for f in file), made['c0']['Key']), hellos=[]))
    for i, h in enumerate(hellos):
        rng.choice([s for s in servers if s['key'] == h['key']])['hellos'].append(h)
    cases = []
    for k, s in enumerate(servers):
        conns = [dict(Reqs=[], Tls=dict(Min=0x0301 + h['lo'] - 10, Max=0x0301 + h['hi'] - 10, Suites=rng.sample([SUITE[x] for x in h['offered']], len(h['offered']))),
                      From='127.0.0.%d' % rng.randrange(1, 200)) for h in s['hellos']]
        cases.append(dict(Id=k, Yaml=s['yaml'], Ups=[{}], Conns=conns, Conc=8, KeepErr=True, Env=dict(LOGLEVEL='DEBUG')))
    recs = wire.run(cases, shards=len(cases))
    hs, hi, starts = [], [], []
    for s, rec in zip(servers, recs):
        if isinstance(rec, vv.Crash):
            raise vv.Broken(rec.text[-2000:])
        if not rec['listening']:
            raise vv.Broken('server did not start: ' + rec['stderr'][-2000:])
        for h, cs in zip(s['hellos'], rec['conns']):
            if 'dial' in cs['err'] or 'i/o timeout' in cs['err']:
                raise vv.Broken(cs['err'])
            if cs['err']:
                ev = [dict(e='refused')]
            else:
                ev = [dict(e='agreed', version=cs['tlsver'] - 0x0301 + 10, suite=SUITE_NAME.get(cs['suite'], str(cs['suite'])), shown=cs['cert'] == str(s['serials'][0]))]
            hs.append(dict(h, ev=ev))
            hi.append(dict(yaml=s['yaml'], conn=cs))
        ev = []
        for line in rec['stderr'].split('\n'):
            try:
                m = json.loads(line)
            except ValueError:
                continue
            ls = links(m.get('message', ''), s['serials'])
            if ls:
                ev.append(dict(e='report', t=0, level=m.get('level'), links=ls))
        starts.append(dict(chain=s['ends'], ev=(ev or [dict(e='none')])))
    judge(c, 'TlsServeTrace', 'handshake', hs, hi)
    judge(c, 'TlsHealthTrace', 'start of the server', starts, [s['yaml'] for s in servers])
    c.sample(hs[0])
    c.extra.update(handshakes=len(hs), agreed=sum(h['ev'][0]['e'] == 'agreed' for h in hs), starts=len(starts))


def weeks(c, rng):
    """the real server, watching its own certificates for weeks of virtual time"""
    plans, cases = [], []
    for i in range(32 if not vv.THOROUGH else 200):
        n = rng.choice([1, 2, 2, 3, 4])
        plan = dict(ends=[rng.choice([DAY + 1, 20 * DAY, 30 * DAY, 31 * DAY, 33 * DAY + 5, 50 * DAY, 400 * DAY, 9000 * DAY]) for _ in range(n)],
                    extra=rng.choice(['none', 'none', 'oldroot', 'otherroot', 'shuffled']))
        certs, file, ser = chain(rng, plan)
        made = wire.certs([dict(Name=x['Name'], Issuer=x['Issuer'], CN=x['CN'], DNS=['proxy.example'], CA=x['CA'], Serial=str(int(x['Serial'], 16)), Key='p256',
                                Base=vv.FAKE_START, From=x['From'] * 60, Until=x['Until'] * 60) for x in certs])
        y = server_yaml(''.join(made[f]['Cert'] for f in file), made['c0']['Key']).replace('${PORT}', str(21000 + i)).replace('${UP0}', '1')
        end = rng.choice([2, 5, 22, 40, 70]) * DAY
        plans.append((plan, ser, end))
        cases.append(dict(yaml=y, end=end * 60 + 30))
    ts = []
    for (plan, ser, end), (lines, rc) in zip(plans, vv.run_fake(vv.build_fake(), cases)):
        if rc is None:
            raise vv.Broken('server in virtual time does not end')
        ev = []
        for t, l in lines:
            if isinstance(l, dict):
                ls = links(l.get('message', ''), ser)
                if ls:
                    ev.append(dict(e='report', t=int(t // 60), level=l.get('level'), links=ls))
        ev.append(dict(e='end', t=end))
        if rc != 0:
            ev.append(dict(e='crash', v=str(lines[-3:])[:2000]))
        ts.append(dict(chain=plan['ends'], ev=ev))
    judge(c, 'TlsHealthTrace', 'server in virtual time', ts, cases)
    c.extra.update(server_runs=len(ts), server_days=sum(e for _, _, e in plans) // DAY)


def run(c):
    rng = random.Random(vv.SEED * 41 + 21)
    health(c, rng)
    serve(c, rng)
    weeks(c, rng)
    c.assumptions += ['clients are those of crypto/tls, suites it can not offer (DHE, CCM, export) are not tried', 'what is reported after a link of the chain has expired is left open']
