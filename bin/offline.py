"""Offline checkers over recorded events: a second, independent oracle (Python integers)."""


def val(s, base):
    sign = -1 if s[0] == '-' else 1
    v = 0
    if len(s) > 1:
        for d in reversed(s[1:].split(',')):
            d = int(d)
            if not 0 <= d < base:
                raise ValueError('digit %d outside base %d' % (d, base))
            v = v * base + d
    return sign * v


def tdiv(a, b):
    q = abs(a) // abs(b)
    return -q if (a < 0) != (b < 0) else q


OPS = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b, 'div': tdiv}


def one(line):
    p = line.split(' ')
    if p[0] in OPS:
        base = int(p[1])
        a, b, r = (val(x, base) for x in p[2:5])
        e = OPS[p[0]](a, b)
        return None if e == r else ('%s|offline' % p[0], '%s: expected %d' % (line, e))
    if p[0] == 'cmp':
        base = int(p[1])
        a, b = val(p[2], base), val(p[3], base)
        e = ''.join('1' if x else '0' for x in (a == b, a != b, a < b, a <= b, a > b, a >= b))
        return None if e == p[4] else ('cmp|offline', '%s: expected %s' % (line, e))
    if p[0] == 'val':            # val base digits hex : value equality across bases
        return None if val(p[2], int(p[1])) == val(p[4], int(p[3])) else ('val|offline', line)
    if p[0] == 'txt':
        if p[1][0] in '+-' and p[1][1:2] != 'I':
            e = ('-' if p[1][0] == '-' else '') + (''.join(reversed(p[1][1:].split(','))) or '0')
        else:
            e = p[1]
        return None if p[2] == e else ('txt|offline', '%s: expected %s' % (line, e))
    if p[0] == 'edit':           # edit base start (kind:pos:value)* = end ; list semantics
        get = lambda x: [int(d) for d in x[1:].split(',')] if len(x) > 1 else []
        l = get(p[2])
        for e in p[3:-2]:
            k, i, v = e.split(':')
            i, v = int(i), int(v)
            if k == 'ins':
                l.insert(i, v)
            elif k == 'del':
                del l[i]
            elif k == 'set':
                l[i] = v
            else:
                l = l[:i] + [v] * (i - len(l))
        return None if l == get(p[-1]) else ('edit|offline', '%s: expected %s' % (line, l))
    if p[0] == 'hist':
        r = hist(p)
        return ('hist|offline', r) if r else None
    return None


def xval(s, base):
    return s if s in ('+INF', '-INF', 'NaN') else val(s, base)


def xop(op, a, b):
    """extended integers; returns a value, a tag, or None when any non-finite value will do"""
    inf = lambda x: x in ('+INF', '-INF')
    sg = lambda x: (1 if x == '+INF' else -1) if inf(x) else (x > 0) - (x < 0)
    mk = lambda n: '+INF' if n > 0 else '-INF'
    if 'NaN' in (a, b):
        return 'NaN'
    if op == '-':
        return xop('+', a, mk(-sg(b)) if inf(b) else -b)
    if not inf(a) and not inf(b):
        if op == '/':
            return tdiv(a, b) if b else (mk(sg(a)) if a else None)
        return a + b if op == '+' else a * b
    if op == '+':
        return (a if a == b else 'NaN') if inf(a) and inf(b) else (a if inf(a) else b)
    if op == '*':
        return mk(sg(a) * sg(b)) if sg(a) * sg(b) else 'NaN'
    if inf(a) and inf(b):
        return 'NaN'
    return 0 if inf(b) else mk(sg(a) * (-1 if sg(b) < 0 else 1))


def hist(p):
    """replays a recorded history: every arithmetic result and every copy is recomputed from the recorded states"""
    base = int(p[1])
    st = {}
    for n, e in enumerate(p[2:]):
        what, res = e.split('=', 1)
        w = what.split(':')
        if w[0] == 'swap':
            a, b = res.split('/')
            if st.get(w[1]) != b or st.get(w[2]) != a:
                return 'step %d %s' % (n, e)
            st[w[1]], st[w[2]] = a, b
            continue
        if w[0] == 'copy':
            if st.get(w[2], res) != res:
                return 'step %d %s: source was %s' % (n, e, st.get(w[2]))
        elif w[0].startswith('op'):
            if w[2] not in st or w[3] not in st:
                return 'step %d %s: unknown operand' % (n, e)
            x = xop(w[0][2:], xval(st[w[2]], base), xval(st[w[3]], base))
            got = xval(res, base)
            if got != x and not (x is None and got in ('+INF', '-INF', 'NaN')):
                return 'step %d %s: expected %s' % (n, e, x)
        st[w[1]] = res
    return None


def check(events):
    bad, n = [], 0
    for l in events:
        try:
            r = one(l)
        except ValueError as e:
            r = ('event|offline', '%s: %s' % (l, e))
        n += 1
        if r:
            bad.append(r)
    return bad, n


# ------------------------------------------------------------------ custom runners, called as fn(run, job, exe)
def plain(run, job, exe):
    """p_mem under a sanitizer or valgrind: several processes, each a range of program numbers"""
    import concurrent.futures as cf, os, re, threading
    from checks import VARIANTS
    v = VARIANTS[job['variant']]
    n = job['tcount'] if run.thorough else job['count']
    procs = job.get('procs', 4)
    per = max(1, n // procs)
    part = {'evaluations': 0, 'counters': {}, 'variant': job['variant'], 'processes': procs}
    seed = run.seed * 31 + job.get('seed_salt', 0)
    stop = threading.Event()

    def one(k):
        log = os.path.join(run.tmp, '%s.%d.log' % (job['name'], k))
        args = [str(seed), str(k * per), str(per), str(job['maxlen'][k % len(job['maxlen'])])]
        with run.cpu:
            rc = run.run_cmd(job.get('pre', []) + [exe] + args + job.get('post', []), v, log, job.get('timeout', 600) if not run.thorough else 5400, stop)
        text = run.tail(log, 400000)
        m = re.search(r'CASES (\d+)', text)
        if rc == 0 and m:
            part['distinct_nontrivial'] = part.get('distinct_nontrivial', 0) + sum(map(int, re.findall(r'DISTINCT (\d+)', text)))
            return int(m.group(1)), re.findall(r'OP\t([^\t]+)\t(\d+)', text)
        if rc == 'stopped':
            return 0, []
        if rc == 'timeout':
            raise run.Broken('%s did not finish' % job['name'])
        if not job.get('evidence_of_error') or re.search(job['evidence_of_error'], text) or rc < 0:
            case = re.findall(r'CASE (\d+)', text)
            stop.set()          # the other processes may be running into the same thing without end
            run.add_viol(job.get('key', 'mem|' + job['name']), '%s: program %s: %s' % (job['name'], case[-1] if case else '?', run.sanitizer_lines(text) or text[-1500:]),
                         {'kind': 'program', 'job': job['name'], 'args': ([args[0], case[-1], '1', args[3]] if case else args) + job.get('post', [])})
            return 0, []
        raise run.Broken('%s ended with %s\n%s' % (job['name'], rc, text[-3000:]))
    for cnt, ops in cf.ThreadPoolExecutor(procs).map(one, range(procs)):
        part['evaluations'] += cnt
        for o, x in ops:
            part['counters'][o] = max(part['counters'].get(o, 0), int(x)) if o.startswith('distinct') else part['counters'].get(o, 0) + int(x)
    run.parts[job['name']] = (part, [], job)


def builds(run, job, only=None):
    """one workload under several builds of the library: digests compared program by program"""
    import collections, concurrent.futures as cf, os, re
    from checks import VARIANTS
    # a build for processor features that this machine lacks is left out
    cpu = open('/proc/cpuinfo').read().split() if os.path.exists('/proc/cpuinfo') else []
    names = [v for v in job['variants'] if VARIANTS[v].get('cpu', 'fma') in cpu or 'cpu' not in VARIANTS[v]]
    seed = run.seed * 31 + job.get('seed_salt', 0)
    n = job['tcount'] if run.thorough else job['count']
    lo = 0
    if only:
        seed, lo, n = only

    def make(v):
        return v, run.build({'name': 'build_' + v, 'variant': v, 'src': job['src'], 'defs': job.get('defs', [])})
    exes = dict(cf.ThreadPoolExecutor(len(names)).map(make, names))
    parts = 1 if n < 1000 else 16 if run.thorough else 2

    def work(a):
        v, k = a
        out = os.path.join(run.tmp, 'digest_%s_%d' % (v, k))
        log = out + '.log'
        first, cnt = lo + n * k // parts, n * (k + 1) // parts - n * k // parts
        with run.cpu:
            rc = run.run_cmd([exes[v], str(seed), str(first), str(cnt), out], VARIANTS[v], log, 600 if not run.thorough else 5400)
        text = run.tail(log, 200000)
        for key, desc in re.findall(r'VFVIOL key=(\S+) desc=(.*)', text)[:5]:
            m = re.search(r'program (\d+)', desc)
            run.add_viol(key, '%s: %s' % (v, desc), {'kind': 'builds', 'job': job['name'], 'only': [seed, int(m.group(1)) if m else first, 1]})
        if rc != 0 and not run.viol:
            raise run.Broken('%s ended with %s\n%s' % (v, rc, text[-3000:]))
        data = open(out, 'rb').read() if os.path.exists(out) else b''
        return v, k, [data[i:i + 8] for i in range(0, len(data) - 7, 8)], re.findall(r'OP\t([^\t]+)\t(\d+)', text)
    digests, part = {}, {'evaluations': 0, 'counters': {}, 'variant': ', '.join(names), 'programs': n}
    for v, k, d, ops in cf.ThreadPoolExecutor(len(names) * parts).map(work, [(v, k) for v in names for k in range(parts)]):
        digests.setdefault(v, {}).update({lo + n * k // parts + i: x for i, x in enumerate(d)})
        part['evaluations'] += len(d)
        for o, x in ops:
            part['counters'][o] = part['counters'].get(o, 0) + int(x)
    part['distinct_nontrivial'] = len(set(digests[names[0]].values()))
    ref = digests[names[0]]
    differing = 0
    for i in range(lo, lo + n):
        got = {v: digests[v].get(i) for v in names}
        got = {v: x for v, x in got.items() if x is not None}
        if len(set(got.values())) > 1:
            differing += 1
            if differing > 3:
                continue
            top = collections.Counter(got.values()).most_common(1)[0][0]
            odd = [v for v in names if v in got and got[v] != top]
            good = [v for v in names if got.get(v) == top]
            show = []
            for v in (odd[0], good[0]):
                log = os.path.join(run.tmp, 'show_%s_%d' % (v, i))
                run.run_cmd([exes[v], str(seed), str(i), '1', log + '.d', 'show'], VARIANTS[v], log, 300)
                show.append([l for l in run.tail(log, 100000).split('\n') if l.startswith(('  ', 'program'))])
            line = next(('%s | %s' % (a.strip()[:400], b.strip()[:400]) for a, b in zip(*show) if a != b), '')
            run.add_viol('build|differs', 'program %d gives another result when built as %s than as %s: %s' % (i, ', '.join(odd), ', '.join(good), line),
                         {'kind': 'builds', 'job': job['name'], 'only': [seed, i, 1]})
    part['counters']['programs on which all builds agree'] = n - differing
    run.parts[job['name']] = (part, ['program %d: digest %s in all of %s' % (i, ref[i].hex(), ', '.join(names)) for i in list(ref)[:2]], job)
