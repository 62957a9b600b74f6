"""Words and numbers that occur in the code under test. They are mixed into requests, responses and configurations, those that
were not in the code when words.json was written more than others: what the code treats specially is worth being tried."""
import collections, json, os, random, re
import vv

BASE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'words.json')
_str = re.compile(r'"((?:[^"\\\n]|\\.)*)"|`([^`]*)`' + r"|'((?:[^'\\\n]|\\.))'")
_num = re.compile(r'(?<![\w.])(0x[0-9a-fA-F_]+|\d[\d_]*)(?:\s*(<<|\*)\s*(\d[\d_]*))?(?![\w.]*["\w])')


def literals(repo):
    words, nums = collections.Counter(), collections.Counter()
    for f in sorted(os.listdir(repo)):
        if not f.endswith('.go') or f.endswith('_test.go'):
            continue
        s = open(os.path.join(repo, f), encoding='utf-8', errors='replace').read()
        # no comments
        s = re.sub(r'(?m)^\s*//.*$', '', s)
        for m in _str.finditer(s):
            x = m.group(1) if m.group(1) is not None else m.group(2) if m.group(2) is not None else m.group(3)
            x = re.sub(r'\\(.)', lambda e: dict(n='\n', t='\t', r='\r').get(e.group(1), e.group(1)), x)
            if 0 < len(x) < 200 and not x.startswith('github.com/'):
                words[x] += 1
                if len(x) < 60:
                    words.update(w for w in re.split(r'[\s=:;,"\[\]()]+', x) if len(w) > 1 and w != x)
        for m in _num.finditer(_str.sub('""', s)):
            try:
                a = int(m.group(1), 0)
                if m.group(3):
                    b = int(m.group(3), 0)
                    nums[a << min(b, 40) if m.group(2) == '<<' else a * b] += 1
                nums[a] += 1
            except ValueError:
                pass
    return words, {n: k for n, k in nums.items() if 1 < n < 10 ** 8}


_w, _n = literals(vv.REPO)
_b = json.load(open(BASE)) if os.path.exists(BASE) else dict(words=_w, nums=_n)
ALL = sorted(w for w in _w if '\n' not in w and '\r' not in w and w.isprintable())
# new, or there more often than it was
FRESH = [w for w in ALL if _w[w] > _b['words'].get(w, 0)]
NUMS = sorted(n for n in _n if _n[n] > _b['nums'].get(str(n), _b['nums'].get(n, 0)))
TOKEN = re.compile(r"^[A-Za-z0-9!#$%&'*+.^_`|~-]{1,50}$")
NOT_A_HEADER = {'host', 'connection', 'keep-alive', 'te', 'trailer', 'trailers', 'transfer-encoding', 'upgrade', 'proxy-connection', 'proxy-authenticate', 'proxy-authorization',
                'content-length', 'content-encoding', 'content-type', 'accept-encoding', 'x-request-id', 'expect', 'date', 'server', 'authorization', 'x-vtag', 'user-agent',
                'strict-transport-security', 'x-tag', 'x-mine', 'http2-settings', 'cookie', 'x-up-attempt', 'x-up-mark', 'x-up-other', 'status', 'set-cookie'}
HEADERS = {True: [w for w in FRESH if TOKEN.match(w) and w.lower() not in NOT_A_HEADER], False: [w for w in ALL if TOKEN.match(w) and w.lower() not in NOT_A_HEADER]}
SEGMENTS = {True: [w for w in FRESH if re.match(r'^[A-Za-z0-9._~!$&\'()*+,;=:@-]{1,50}$', w.strip('/')) and w.strip('/.')],
            False: [w for w in ALL if re.match(r'^[A-Za-z0-9._~!$&\'()*+,;=:@-]{1,50}$', w.strip('/')) and w.strip('/.')]}


def word(rng, of=None, fresh=0.7):
    f, a = (of[True], of[False]) if of else (FRESH, ALL)
    return rng.choice(f) if f and rng.random() < fresh else rng.choice(a) if a else 'x'


def header(rng):
    """a name and a value"""
    n = word(rng, HEADERS, 0.8)
    v = word(rng) if rng.random() < 0.6 else rng.choice(['true', '1', 'POST', 'GET', '0', 'no', 'x', 'yes'])
    return [n, v.strip()]


def often():
    """how often words are to be used"""
    return 0.5 if FRESH else 0.1


def segment(rng):
    return word(rng, SEGMENTS).strip('/')


USUAL = [7, 8, 9, 10, 12, 15, 16, 20, 24, 31, 32, 50, 63, 64, 99, 100, 127, 128, 200, 255, 256, 300, 500, 511, 512, 999, 1000, 1023, 1024, 1399, 1400, 1500, 2000, 2047, 2048, 4095, 4096, 5000,
         8191, 8192, 10000, 16383, 16384, 32767, 32768, 50000, 65535, 65536, 100000, 131072, 262144, 524288, 1000000, 1048576, 2000000, 2097152]


def size(rng, lo, hi):
    """a size around a number that is new in the code, or around a usual one"""
    c = [n + d for n in NUMS for d in (-1, 0, 1) if lo <= n + d <= hi]
    if not c or rng.random() < 0.5:
        c = [n + d for n in USUAL for d in (-1, 0, 1) if lo <= n + d <= hi] or [lo]
    return rng.choice(c)


def sizes_often():
    return 0.3 if NUMS else 0.05


if __name__ == '__main__':
    json.dump(dict(words=dict(_w), nums=_n), open(BASE, 'w'), indent=0, sort_keys=True)
