"""Runs the real code (harness) and TLC, and reports.  No judgement is made
here: a verdict is always the output of a TLA+ specification in ../spec."""
import atexit, base64, concurrent.futures, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SPEC = os.path.join(VERIF, 'spec')
TLA = '/opt/veriftools/tla'
NCPU = min(8, os.cpu_count() or 4)


class CheckError(Exception):
    """The check itself failed; never a verdict about the code."""


class EvalError(CheckError):
    """TLC could not evaluate the specification on what was recorded."""


def log(*a):
    print(*a, flush=True)


def goenv(race=False):
    env = dict(os.environ)
    env.update(GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off', GOWORK='off',
               CGO_ENABLED='1' if race else '0')
    env.setdefault('HOME', '/root')
    return env


class Work:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='vbib.')
        atexit.register(shutil.rmtree, self.dir, True)
        self.n = 0
        self.driver = {}

    def path(self, name):
        self.n += 1
        return os.path.join(self.dir, '%04d.%s' % (self.n, name))

    def build(self, race=False):
        """Builds the driver against /repo's working tree."""
        if race in self.driver:
            return self.driver[race]
        d = os.path.join(self.dir, 'harness')
        if not os.path.exists(d):
            shutil.copytree(os.path.join(VERIF, 'harness'), d)
        out = os.path.join(self.dir, 'driver-race' if race else 'driver')
        cmd = ['go', 'build'] + (['-race'] if race else []) + ['-o', out, '.']
        p = subprocess.run(cmd, cwd=d, env=goenv(race), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise CheckError('driver does not build:\n' + p.stdout.decode(errors='replace'))
        self.driver[race] = out
        return out


def _drive(driver, reqs, path, limit, env=None):
    """Runs requests in order in one or more driver processes."""
    obs = {}
    i = 0
    crashes = hangs = 0
    while i < len(reqs):
        if crashes > 5 or hangs > 1:
            break
        with open(path + '.in', 'w') as f:
            for r in reqs[i:]:
                f.write(json.dumps(r) + '\n')
        e = dict(os.environ, VH_LIMIT='%ds' % limit, GOMEMLIMIT='3GiB', GOTRACEBACK='single')
        e.update(env or {})
        with open(path + '.in') as fi, open(path + '.out', 'w') as fo, open(path + '.err', 'w') as fe:
            p = subprocess.Popen([driver], stdin=fi, stdout=fo, stderr=fe, env=e)
            rc = p.wait()
        got = 0
        with open(path + '.out') as f:
            for line in f:
                if not line.endswith('\n'):
                    break
                o = json.loads(line)
                obs[o['id']] = o
                got += 1
        err = open(path + '.err').read()
        if rc == 66 or 'DATA RACE' in err:
            obs['race'] = err
        i += got
        if rc == 0 or rc == 66:
            if i < len(reqs):
                raise CheckError('driver stopped early without an error')
            break
        crashes += 1
        if got and obs[reqs[i - 1]['id']].get('crash') in ('hang', 'memory'):
            hangs += 1
            continue
        if i >= len(reqs):
            break
        # The driver flushes every line: this request ended the process.
        obs[reqs[i]['id']] = dict(id=reqs[i]['id'], crash='exit', msg=err[-1500:])
        i += 1
    return obs


def run_driver(work, reqs, limit=10, race=False, nproc=NCPU, confirm=True, alone=False):
    """Returns {id: observation}.  Hangs and crashes are confirmed alone, with
    a longer limit, before they count as observations."""
    driver = work.build(race)
    nproc = max(1, min(nproc, len(reqs) if alone else (len(reqs) + 49) // 50))
    shards = [[q] for q in reqs] if alone else [reqs[k::nproc] for k in range(nproc)]
    paths = [work.path('drv') for _ in shards]
    obs = {}
    with concurrent.futures.ThreadPoolExecutor(nproc) as ex:
        for o in ex.map(lambda a: _drive(driver, a[0], a[1], limit), zip(shards, paths)):
            obs.update(o)
    byid = {r['id']: r for r in reqs}
    for o in obs.values():
        if 'mistake' in o:
            raise CheckError('request not understood: %s' % o['mistake'])
    if confirm and limit < 30:
        again = [i for i, o in obs.items() if i != 'race' and o.get('crash') in ('hang', 'memory', 'exit')]
        with concurrent.futures.ThreadPoolExecutor(3) as ex:
            for o in ex.map(lambda i: _drive(driver, [byid[i]], work.path('cfm'), 30), again[:3]):
                obs.update(o)
        for i in again[3:]:
            obs.pop(i)
    for i, o in obs.items():
        if i != 'race' and 'crash' in o:
            r = byid[i]
            src = base64.b64decode(r.get('b', ''))
            if r['op'] == 'expr':
                src = b'=' + src
            o.update(op=r['op'], src=cps(src), ps=1 if r['op'] == 'expr' or r.get('mode', 0) & 2 else 0,
                     mode=r.get('mode', 0))
    return obs


def cps(b):
    """Code points of a byte string, -1 for bytes that are not valid UTF-8."""
    out = []
    for ch in b.decode('utf-8', errors='surrogateescape'):
        out.append(-1 if 0xDC80 <= ord(ch) <= 0xDCFF else ord(ch))
    return out


def run_tlc(work, module, cfg=None, env=None, workers=1, heap='3g', timeout=800, extra=(), keep=None):
    """Runs TLC on a module of ../spec; returns its output."""
    meta = work.path('tlc')
    os.makedirs(meta)
    cp = TLA + '/tla2tools.jar:' + TLA + '/CommunityModules-deps.jar'
    gc = ['-XX:+UseSerialGC'] if workers == 1 else ['-XX:+UseParallelGC']
    if workers == 1 and os.environ.get('VERIF_TIER') != 'thorough':
        gc.append('-XX:TieredStopAtLevel=1')    # short runs, many processes
    cmd = ['java', '-Xss256m', '-Xmx' + heap] + gc + [ '-Djava.io.tmpdir=' + meta,
           '-DTLA-Library=' + SPEC, '-cp', cp, 'tlc2.TLC', '-workers', str(workers), '-metadir', meta,
           '-noGenerateSpecTE', '-config', os.path.join(SPEC, cfg or module + '.cfg')] + list(extra) + [os.path.join(SPEC, module + '.tla')]
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=meta, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        raise CheckError('TLC timed out on %s' % module)
    out = p.stdout.decode(errors='replace')
    shutil.rmtree(meta, True)
    if p.returncode != 0 or 'No error has been found' not in out and 'Finished in' not in out:
        kind = CheckError
        if 'Computing initial states' in out and re.search(r'evaluating|[Aa]ttempted to|CHOOSE|CASE', out) and not re.search(r'OutOfMemory|StackOverflow|Deserialize', out):
            kind = EvalError
        raise kind('TLC failed on %s (exit %d):\n%s' % (module, p.returncode, out[-1500:]))
    return out


def tlc_states(out):
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    if m:
        return int(m[-1][1]), int(m[-1][0])
    m = re.findall(r'The number of states generated: (\d+)', out)
    return (int(m[-1]), int(m[-1])) if m else (0, 0)


def printed(out, tag):
    """The JSON values printed as "TAG <json>" by PrintT."""
    res = []
    pre = '"' + tag + ' '
    for line in out.splitlines():
        if line.startswith(pre) and line.endswith('"'):
            s = line[1:-1][len(tag) + 1:]
            res.append(json.loads(s.replace('\\"', '"').replace('\\\\', '\\')))
    return res


def validate(work, module, records, env=None, nproc=NCPU, tag='VERDICT', per=400, heap='3g'):
    """Has the trace specification judge the records.  Returns the verdicts by
    record id and the number of states TLC visited."""
    if not records:
        return {}, (0, 0)
    nproc = max(1, min(nproc, (len(records) + per - 1) // per))
    order = sorted(records, key=lambda r: len(r.get('src', ())))
    shards = [order[k::nproc] for k in range(nproc)]

    strange = []

    def split(shard):
        """Around a record the specification has no value for."""
        if len(strange) >= 3:
            return [[r['id'], 'not judged', False, [], []] for r in shard], (0, 0)
        try:
            return one(shard)
        except EvalError:
            if len(shard) == 1:
                strange.append(shard[0])
                return [[shard[0]['id'], 'no value', False, ['*'], []]], (0, 0)
        h = len(shard) // 2
        (a, s), (b, t) = split(shard[:h]), split(shard[h:])
        return a + b, (s[0] + t[0], s[1] + t[1])

    def one(shard):
        p = work.path('ndjson')
        with open(p, 'w') as f:
            for r in shard:
                f.write(json.dumps(r, separators=(',', ':')) + '\n')
        e = {'TRACE': p}
        e.update(env or {})
        out = run_tlc(work, module, env=e, heap=heap)
        os.unlink(p)
        return printed(out, tag), tlc_states(out)

    res, st = {}, [0, 0]
    with concurrent.futures.ThreadPoolExecutor(nproc) as ex:
        for v, s in ex.map(split, shards):
            for x in v:
                res[x[0]] = x
            st[0] += s[0]
            st[1] += s[1]
    # TLC ended without an error and these were not judged: no behaviour of
    # the specification goes through the whole record.
    for r in records:
        if r['id'] not in res:
            res[r['id']] = [r['id'], 'stuck', False, ['*'], []]
    return res, tuple(st)


def write_replay(prop, name, data):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%s.json' % (prop, name))
    with open(p, 'w') as f:
        json.dump(data, f, indent=1)
    return p


def known_findings():
    """Open findings: lines 'open: property=<id> key=<key> <text>'."""
    res = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'open: property=(\S+) key=(\S+) (.*)', line)
            if m:
                res.append(m.groups())
    return res
