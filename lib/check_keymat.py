"""C20: what jwt configurations are accepted and which keys they hold afterwards. Specification Keymat. Every configuration of
the domains in KeymatMC is made concrete and given to the real Jwt.Validate; the outcome, and which tokens the real handler
then admits, is judged by KeymatTrace."""
import concurrent.futures as cf
import json, random
import vv
from check_auth import EPOCH

CURVE = {'p224': '224', 'p256': '256', 'p384': '384', 'p521': '521'}
SKEWS = dict(absent=[''], number=['0', '1', '120', '3600', '2147483647'], odd=['+5', '007', '-0', '99999999999999999999', '9223372036854775807', '1_000'],
             bad=['-1', '-120', '5.0', 'abc', '1e3', '0x10', ' 5', '5 ', '1,0', 'NaN', '5s', '--5', '\u0665', '-9223372036854775808', '-99999999999999999999'])
TEXTS = ['x', ' ', 'secret', '\n', '-----BEGIN PUBLIC KEY-----', '-----BEGIN PUBLIC KEY-----\n-----END PUBLIC KEY-----', '\x00', 'MIIBIjANBgkqhkiG9w0BAQEFAAOCAQ8AMIIBCgKCAQEA', '{}', '-----BEGIN',
         '-----BEGIN CERTIFICATE-----\n\n-----END CERTIFICATE-----\n', '-----BEGIN A-----\n-----END B-----\n', '-' * 500, '/etc/passwd', 'http://keys.example/j', '${sec:s1}', '\u00fc' * 50]
NOTPEM = [t for t in TEXTS if '-----END' not in t]
NAMES = ['j', 'j', 'J w t', '\u00fc', 'x' * 300, '0', '/']


def keyname(k):
    f, i = k['fam'], k['id']
    return 'r%d' % i if f == 'rsa' else 's%d' % i if f == 'oct' else 'ed1' if f == 'ed' else 'p%s%s' % (CURVE[f], 'abcd'[i - 1])


def concrete(rng, i, c):
    alg = c['alg']
    key = ''
    secret = 's1'
    if c['form'] == 'text':
        if alg[:2] == 'HS':
            key = '${sec:s1}'
        else:
            key = rng.choice(NOTPEM)
    elif c['form'] == 'pem':
        key = dict(none='', space=rng.choice(['\n', ' \n', '\r\n\r\n']), junk=rng.choice(['Subject: x\n', '# my key\n\n', 'xxx\n']))[c['lead']]
        for b in c['blocks']:
            key += '${pem:%s:%s:%s:%d}' % (b['label'], b['body'], keyname(b['key']), rng.randrange(10 ** 6))
        key += dict(none='', space=rng.choice(['\n', '\n\n', ' ', '\r\n']), junk=rng.choice(['x', 'junk\n', '-----', '{}', '\n\nmore']))[c['trail']]
        secret = ''
    case = dict(Id=i, Cfg=dict(Name='' if c['name'] == '' else rng.choice(NAMES), Alg=alg, Key=key, Skew=rng.choice(SKEWS[c['skew']]), Jwks=c['set'] == 'url'), Toks=[], Pubs=[])
    if c['set'] == 'url':
        es = [dict(Kid=e['kid'], Alg=e['alg'], Key=keyname(e['key']), NoKid=e['kid'] == '', Use=rng.choice(['', 'sig'])) for e in c['entries']]
        p = dict(At=0, Jwt=case['Cfg']['Name'] or 'x', Mode='ok', Entries=es, Delay=rng.choice([0, 1, 500]), Drip=rng.choice([0, 3]), Status=200)
        if c['whole'] == 'no':
            p['Mode'] = rng.choice(['status', 'garbage', 'empty', 'nokeys', 'err', 'hang', 'hangbody', 'keysnull', 'null'])
            p['Status'] = rng.choice([500, 404, 503])
        elif c['whole'] == 'open':
            if rng.random() < 0.5:
                p['Mode'] = rng.choice(['cutjson', 'list'])
            else:
                es.insert(rng.randrange(len(es) + 1), dict(Raw=rng.choice(['{"kty":"RSA","alg":"%s","kid":"bad"}' % alg, '{}', 'null', '7', '{"kty":"EC","alg":"%s","crv":"P-256","x":"AA","y":"AA"}' % alg])))
        case['Pubs'].append(p)
    toks = []
    fams = dict(R=['rsa'], P=['rsa'], H=['oct'], E=[dict(ES256='p256', ES384='p384', ES512='p521').get(alg, '')])
    if alg in ALGS and not (alg[0] == 'H' and c['form'] == 'pem'):
        for f in fams[alg[0]]:
            for n in (1, 2, 3):
                k = dict(fam=f, id=n)
                toks.append(k)
                hdr = dict(alg=alg, typ='JWT')
                if rng.random() < 0.5:
                    hdr['kid'] = rng.choice(['a', 'b', 'c', 'z'])
                case['Toks'].append(dict(Sign=alg, Key=keyname(k), Hdr=json.dumps(hdr), Pay='{"sub":"u","exp":%d}' % (EPOCH + 10 ** 6), Mut='', Form=''))
    return case, dict(cfg=c, toks=toks)


ALGS = ['RS256', 'RS384', 'RS512', 'PS256', 'PS384', 'PS512', 'HS256', 'HS384', 'HS512', 'ES256', 'ES384', 'ES512']


def trace(m, rec):
    if isinstance(rec, vv.Crash):
        return dict(cfg=m['cfg'], ev=[dict(e='crash')])
    ev = [dict(e='validate', ok=rec['ok'], held=rec['held'], err=rec['err'][:200])]
    if rec['ok'] and m['cfg']['alg'] != 'none':
        ev += [dict(e='token', key=k, adm=a) for k, a in zip(m['toks'], rec['adm'])]
        if len(rec['adm']) != len(m['toks']):
            ev.append(dict(e='lost'))
    return dict(cfg=m['cfg'], ev=ev)


def run(c):
    rng = random.Random(vv.SEED * 31 + 20)

    def part(p):
        return vv.model_check('KeymatMC', 'KeymatMC.cfg', subst={'@PART@': str(p)}, workers=2, heap='2g')
    with cf.ThreadPoolExecutor(3) as ex:
        rs = list(ex.map(part, (1, 2, 3)))
    c.count(*rs)
    cfgs = [json.loads(x) for r in rs for x in r.lines('CFG')]
    seen = set()
    cases, meta = [], []
    for cfg in cfgs:
        t = json.dumps(cfg, sort_keys=True)
        if t in seen:
            continue
        seen.add(t)
        mangled = any(b['body'] == 'mangled' for b in cfg['blocks'])
        n = (4000 if vv.THOROUGH else 150) if mangled else 1
        n = n if mangled else max(n, 10 if vv.THOROUGH else 1)
        if cfg['skew'] in ('odd', 'bad') or cfg['form'] == 'text' or cfg['whole'] in ('no', 'open'):
            n *= 3
        for _ in range(n):
            a, b = concrete(rng, len(cases), cfg)
            cases.append(a)
            meta.append(b)
    drv = vv.build_driver(['auth.go', 'gateway.go'])
    recs = vv.run_driver(drv, 'keymat', cases)
    ok = [k for k in range(len(cases)) if recs[k] is not None]
    traces = [trace(meta[k], recs[k]) for k in ok]
    rej, runs = vv.validate_traces('KeymatTrace', 'KeymatTrace.cfg', traces)
    c.count(*runs)
    c.traces += len(traces) - len(rej)
    for k in sorted(rej):
        rec = recs[ok[k]]
        c.violation('KeymatTrace rejects %s of %s' % (json.dumps(traces[k]['ev'][rej[k] - 1] if 0 < rej[k] <= len(traces[k]['ev']) else '?'), json.dumps(cases[ok[k]]['Cfg'])),
                    dict(case=cases[ok[k]], trace=traces[k], matched_prefix=rej[k], crash=rec.text if isinstance(rec, vv.Crash) else None))
    c.extra.update(configurations=len(seen), cases=len(cases), accepted=sum(t['ev'][0].get('ok', False) for t in traces),
                   tokens=sum(len(t['ev']) - 1 for t in traces), exhaustive=True)
    for k in (0, len(traces) // 2, len(traces) - 1):
        c.sample(dict(case=cases[ok[k]]['Cfg'], events=traces[k]['ev']))
    c.assumptions += ['key material is made by the Go library', 'the key set endpoint replaces http.DefaultTransport']
