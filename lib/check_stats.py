"""C22: the history of resource samples and the growth report. Specification Stats; the histories of StatsMC, all of them, are played
into the real type, and into the sampler of the whole server in virtual time; TLC judges what is then held and reported (StatsTrace)."""
import json, random
import vv, wire

RSS = dict(base=10, less=4, near=19, double=20, over=21, huge=90, zero=0)


def concrete(rng, plan):
    scale = rng.choice([1, 3, 1000, 4096 * 977, 1 << 30])
    # the sizes of the model stay in proportion but not always round
    k = rng.choice([1, 1, 7, 13, 9973]) if scale > 1 else 1
    # a sample is known by its time, which need not grow
    tag, times = [0], list(range(1, 2001))
    if rng.random() < 0.4:
        rng.shuffle(times)
    elif rng.random() < 0.3:
        times.reverse()

    def s(kind):
        tag[0] += 1
        rss = RSS[kind]
        if kind == 'near':
            rss = rss * k + (k - 1)   # one short of twice the base
        elif kind == 'over':
            rss = 20 * k + 1
        else:
            rss *= k
        return dict(pid=0 if kind == 'zero' else rng.choice([1, 7, 32767, 2 ** 31 - 1]), rss=rss, tag=times[tag[0] % len(times)])
    start, ops = [s(plan[0]['k']) for _ in range(plan[0]['n'])], []
    for st in plan[1:]:
        for i in range(st['n']):
            ops.append(dict(e='append', v=s(st['k'])))
        if rng.random() < 0.3:
            ops.append(dict(e='report'))
        ops.append(dict(e='held'))
    ops += [dict(e='report'), dict(e='held')]
    return start, ops, scale


def up(x, scale):
    return dict(Pid=x['pid'], Rss=x['rss'] * scale, Tag=x['tag'])


def trace(start, ops, scale, rec):
    if isinstance(rec, vv.Crash):
        return dict(start=start, ev=[dict(e='crash', v=rec.text[:500])])
    held, reps, ev, hist = list(rec['held'] or []), list(rec['reports'] or []), [], list(start)
    down = lambda x: dict(pid=x['pid'], rss=x['rss'] // scale if x['rss'] % scale == 0 else -1, tag=x['tag'])
    for o in ops:
        if o['e'] == 'append':
            hist = (hist + [o['v']])[-24:]
            ev.append(o)
        elif o['e'] == 'held':
            if not held:
                break
            ev.append(dict(e='held', v=[down(x) for x in held.pop(0)]))
        else:
            if not reps:
                break
            g = reps.pop(0)
            one = hist[0]['rss'] if hist else 0
            out = []
            for x in g:
                y = x['v'] * one  # the rate as a multiple of the oldest
                out.append(dict(x=round(y) if abs(y - round(y)) < 1e-6 * max(1, y) else -1, high=x['high']))
            ev.append(dict(e='report', v=out))
            if any(s['pid'] for s in hist) and one == 0 and all(s['pid'] for s in hist):
                ev.pop()  # growth from nothing is not defined
    if rec['panic']:
        ev.append(dict(e='panic', v=rec['panic']))
    return dict(start=start, ev=ev)


def judge(c, what, ts, info):
    rej, runs = vv.validate_traces('StatsTrace', 'StatsTrace.cfg', ts)
    c.count(*runs)
    c.traces += len(ts) - len(rej)
    for k in sorted(rej):
        pre = rej[k]
        nxt = ts[k]['ev'][pre - 1] if 0 < pre <= len(ts[k]['ev']) else 'end'
        c.violation('StatsTrace rejects event %d (%s): %s' % (pre, what, json.dumps(nxt)[:500]), dict(trace=ts[k], of=info[k]))


def sampler(c, rng, plans):
    """the sampler of the real server, in virtual time: memory is played, one sample is taken and growth told every hour"""
    plans = [p for p in plans if all(s['k'] != 'zero' for s in p)]
    rng.shuffle(plans)
    cases, hours = [], []
    for i, p in enumerate(plans[:160 if not vv.THOROUGH else 2000]):
        k = rng.choice([1, 1, 7, 13])
        vals = []
        for st in p:
            vals += [st['k']] * (1 if st is p[0] else st['n'])
        vals = (vals + [rng.choice(list(RSS)[:6]) for _ in range(rng.choice([0, 3, 30]))])[:130]
        num = [RSS[v] * k + (k - 1 if v == 'near' else 0) - (k - 1 if v == 'over' else 0) for v in vals]
        scale = rng.choice([1, 50, 4096])
        hours.append(num)
        # half an hour before each sample, the first one at the start
        cases.append(dict(yaml=wire.yaml('  - path: /about\n    resource: about\n', wire.resource('up', 0)).replace('${PORT}', str(20000 + i)).replace('${UP0}', '1'),
                          plan=[(0, num[0] * scale)] + [(3600 * h - 1800, num[h] * scale) for h in range(1, len(num))], end=3600 * (len(num) - 1) + 900))
    runs = vv.run_fake(vv.build_fake(), cases)
    ts, info = [], []
    for num, case, (lines, rc) in zip(hours, cases, runs):
        if rc is None:
            raise vv.Broken('server in virtual time does not end')
        told = {round(t / 3600) for t, l in lines if 'RSS memory increase' in str(l)}
        samp = [dict(pid=1, rss=n, tag=h) for h, n in enumerate(num)]
        ev = [dict(e='hour', v=samp[h], told=h in told) for h in range(1, len(num))]
        if rc != 0:
            ev.append(dict(e='crash', v=str(lines[-3:])[:2000]))
        ts.append(dict(start=[samp[0]] * 24, ev=ev))
        info.append(dict(case=case, told=sorted(told)))
    judge(c, 'sampler of the server', ts, info)
    c.extra.update(sampler_runs=len(ts), sampler_hours=sum(len(h) for h in hours), sampler_told=sum(e.get('told', False) for t in ts for e in t['ev']))


def run(c):
    rng = random.Random(vv.SEED * 31 + 22)
    plans = []
    for fills, steps in (('{1, 2, 23, 24}', 2), ('{1, 22}', 3)) + ((('{1, 3, 20, 23, 25}', 3), ('{1, 24}', 4)) if vv.THOROUGH else ()):
        r = vv.model_check('StatsMC', 'StatsMC.cfg', subst={'@FILLS@': fills, '@STEPS@': str(steps)}, timeout=800)
        c.count(r)
        plans += [json.loads(x) for x in r.lines('PLAN')]
    rng.shuffle(plans)
    plans = plans[:6000 if not vv.THOROUGH else 60000]
    sampler(c, rng, plans)
    drv = vv.build_driver(['stats.go'])
    conc = [concrete(rng, p) for p in plans]
    recs = vv.run_driver(drv, 'stats', [dict(Start=[up(x, sc) for x in st], Ops=[dict(Do=o['e'], S=up(o['v'], sc) if 'v' in o else None) for o in ops]) for st, ops, sc in conc])
    ts = [trace(st, ops, sc, r) for (st, ops, sc), r in zip(conc, recs)]
    judge(c, 'played', ts, plans)
    c.sample(dict(plan=plans[0], trace=ts[0]['ev'][-2:]))
    c.extra.update(histories=len(plans), appended=sum(len(o) for _, o, _ in conc))
    c.assumptions += ['growth is not defined while the oldest sample has no memory', 'whether the hourly sample or the hourly report comes first is left open', 'the runs of the whole server rely on the faketime tag of the Go runtime and on /proc being replaceable (HOST_PROC)']
