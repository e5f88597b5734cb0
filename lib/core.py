"""Batches: requests for the driver, the specification module that judges what
it observed, and how the outcome is reported."""
import json, os, sys, time, traceback
from vlib import *


class Enough(Exception):
    """Violations were found, and going on takes long."""


class Batch:
    """Requests, and the trace specification that judges the observations."""

    def __init__(self, name, module, reqs, race=False, records=None, env=None, nproc=NCPU, per=400,
                 limit=10, alone=False):
        self.name, self.module, self.reqs = name, module, reqs
        self.race, self.records, self.env, self.nproc, self.per, self.limit = race, records, env, nproc, per, limit
        self.alone = alone      # a process for each request
        self.states = 0
        self.transitions = 0

    def run(self, work):
        for i, r in enumerate(self.reqs):
            r['id'] = i + 1
        obs = run_driver(work, self.reqs, limit=self.limit, race=self.race, nproc=self.nproc, alone=self.alone)
        race = obs.pop('race', None)
        recs = list(obs.values())
        if self.records:
            recs = self.records(recs, self.reqs)
        verdicts, (self.states, self.transitions) = validate(work, self.module, recs, env=self.env, per=self.per)
        return obs, recs, verdicts, race


def deviates(prop, verdict):
    return prop in verdict[3] or '*' in verdict[3]


def judge_alone(work, batch, req):
    r = dict(req)
    b = Batch(batch.name, batch.module, [r], race=batch.race, records=batch.records, env=batch.env, nproc=1, limit=30)
    obs, recs, verdicts, race = b.run(work)
    return recs[0] if recs else None, verdicts, race


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.work = Work()
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.cov = {}
        self.samples = []
        self.violations = []     # (size, key, description, replay data)
        self.batches = []
        self.models = []
        self.distinct = set()
        self.classes = {}

    @property
    def quick(self):
        return self.tier == 'quick'

    def left(self, budget):
        return budget - (time.time() - self.t0)

    def model(self, module, cfg=None, workers=NCPU, **kw):
        """Checks the specification itself."""
        t = time.time()
        out = run_tlc(self.work, module, cfg=cfg, workers=workers, **kw)
        d, g = tlc_states(out)
        self.states += d
        self.transitions += g
        self.models.append(dict(module=module, cfg=cfg or module + '.cfg', distinct=d, generated=g, wall_s=round(time.time() - t, 1)))
        return out

    def written(self, fam, length, gaps=0, ps=1, num=0, module='MCDoc'):
        """What the writers of Doc.tla and Names.tla put down, all of it or,
        for the family 'all', some drawn by simulation: [(source, phase)]."""
        env = dict(SET=fam, LEN=str(length), GAPS=str(gaps), PS=str(ps), SHOW='1')
        if fam == 'all':
            out = self.model(module, env=env, workers=1, extra=['-simulate', 'num=%d' % num, '-depth', str(3 * length), '-seed', str(self.seed + 17)])
        else:
            out = self.model(module, env=env, heap='8g')
        self.models[-1].update(SET=fam, LEN=length, GAPS=gaps, PS=ps, behaviours=num)
        ds = set(re.findall(r'"DOC <<(.*?)>> (\w+)"', out))
        if not ds:
            raise CheckError('the writer wrote nothing')
        log('  writer: %-20s %6d texts' % (fam, len(ds)))
        return sorted((''.join(chr(int(c)) for c in d.split(',') if c.strip()), ph) for d, ph in ds)

    def behaviours(self, module, tag, trees, pool=(), **env):
        """The behaviours of a machine on some trees, as printed by its model."""
        def numbered(t):
            n = [0]

            def f(x):
                n[0] += 1
                return [x[0], n[0]] + list(x[2:5]) + [[f(k) for k in x[5]]]
            return f(t)
        e = {k: str(v) for k, v in env.items()}
        e.update(TREES=self.work.path('trees'), POOL=self.work.path('pool'))
        with open(e['TREES'], 'w') as f:
            json.dump([numbered(t) for t in trees], f)
        with open(e['POOL'], 'w') as f:
            json.dump(list(pool), f)
        bs = printed(self.model(module, env=e, heap='8g'), tag)
        self.models[-1].update(env)
        if not bs:
            raise CheckError('no behaviours')
        log('  %s: %d behaviours of %d trees' % (module, len(bs), len(trees)))
        return bs

    def batch(self, b):
        if self.violations and self.left(60) < 0:
            raise Enough()
        t = time.time()
        obs, recs, verdicts, race = b.run(self.work)
        self.states += b.states
        self.transitions += b.transitions
        self.traces += len(recs)
        bad = []
        for r in recs:
            v = verdicts[r['id']]
            self.classes[v[1] + ('?' if v[2] else '')] = self.classes.get(v[1] + ('?' if v[2] else ''), 0) + 1
            for c in v[4]:
                k = '/'.join(str(x) for x in c) if isinstance(c, list) else str(c)
                self.cov[k] = self.cov.get(k, 0) + 1
            if deviates(self.prop, v):
                bad.append(r)
        for q in b.reqs:
            self.distinct.add(hash((q['op'], q.get('b'), q.get('mode'), json.dumps(q.get('x'), sort_keys=True))))
        for r in recs[:: max(1, len(recs) // 3)][:3]:
            if len(self.samples) < 8:
                self.samples.append(dict(batch=b.name, request=b.reqs[r['id'] - 1] if r['id'] <= len(b.reqs) else None,
                                         observation=trim(r), verdict=verdicts[r['id']][:4]))
        cl = {}
        for r in recs:
            v = verdicts[r['id']]
            cl[v[1] + ('?' if v[2] else '')] = cl.get(v[1] + ('?' if v[2] else ''), 0) + 1
        self.batches.append(dict(name=b.name, module=b.module, traces=len(recs), classes=cl, states=b.states, wall_s=round(time.time() - t, 1)))
        log('  %-28s %6d traces %8d states  %5.1fs' % (b.name, len(recs), b.states, time.time() - t))
        bad.sort(key=lambda r: len(json.dumps(b.reqs[r['id'] - 1])))
        for r in bad[:40]:
            req = b.reqs[r['id'] - 1]
            self.violations.append((len(json.dumps(req)), b, req, r, verdicts[r['id']]))
        if race and self.prop == 'C16':
            self.violations.append((0, b, dict(op='race', report=race[:4000]), dict(race=race[:4000]), [0, 'race', False, ['C16'], []]))
        return obs, recs, verdicts

    def replayed(self, name, n, bad, samples=(), states=0, transitions=0, wall=0.0):
        """Outcome of replaying behaviours of the specification into the code."""
        self.traces += n
        self.states += states
        self.transitions += transitions
        self.batches.append(dict(name=name, direction='spec->code', traces=n, wall_s=round(wall, 1)))
        log('  %-28s %6d behaviours replayed  %5.1fs' % (name, n, wall))
        self.samples += list(samples)[:2]
        for data in bad[:40]:
            self.violations.append((len(json.dumps(data)), None, data, data, [0, name, False, [self.prop], []]))

    def finish(self, level='model_checking', explanation='', assumptions=()):
        reported = []
        known = [k for k in known_findings() if k[0] == self.prop]
        seen_known = set()
        self.violations.sort(key=lambda v: v[0])
        tries = 0
        for size, b, req, rec, verdict in self.violations:
            note = ''
            if b is not None and req.get('op') != 'race':
                if reported and (tries >= 5 or self.left(150) < 0):
                    break
                tries += 1
                alone, v, race = judge_alone(self.work, b, req)
                ok = alone is not None and deviates(self.prop, v[alone['id']])
                if ok:
                    rec = alone
                else:
                    note = 'observed in the batch, not when the request ran alone'
            key = finding_key(req, rec)
            match = [k for k in known if k[1] == key]
            if match:
                seen_known.add(match[0])
                continue
            reported.append(write_replay(self.prop, '%s-%d' % (self.tier, len(reported) + 1),
                                         dict(property=self.prop, module=b.module if b else None, note=note, request=req,
                                              observation=rec, verdict=verdict, seed=self.seed, text=shown(req))))
            if len(reported) >= 3:
                break
        for k in known:
            log('KNOWN-FINDING: property=%s %s' % (self.prop, k[2]))
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level,
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces,
                                samples=self.samples[:8],
                                distinct_requests=len(self.distinct),
                                outcome_classes=self.classes,
                                specification_steps_covered=len(self.cov),
                                rarest_steps=sorted(self.cov.items(), key=lambda kv: kv[1])[:12],
                                batches=self.batches, models=self.models,
                                explanation=explanation),
                  assumptions=list(assumptions), wall_s=round(time.time() - self.t0, 2), violations=len(reported))
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if reported:
            log('%d deviations recorded' % len(self.violations))
            log('VIOLATION property=%s replay=%s' % (self.prop, reported[0]))
            return 1
        log('%s %s: ok, %d traces, %d states, %.1fs' % (self.prop, self.tier, self.traces, self.states, time.time() - self.t0))
        return 0


def finding_key(req, rec):
    return hashlib.sha1(json.dumps([req.get('op'), req.get('b'), req.get('mode'), req.get('x')], sort_keys=True).encode()).hexdigest()[:12]


def shown(req):
    try:
        return base64.b64decode(req.get('b', '')).decode(errors='replace')
    except Exception:
        return ''


def trim(r):
    s = json.dumps(r)
    return r if len(s) < 1500 else s[:1500] + '...'


def req(op, src, mode=0, **x):
    if isinstance(src, str):
        src = src.encode('utf-8', errors='surrogatepass')
    r = dict(op=op, b=base64.b64encode(src).decode(), mode=mode)
    if x:
        r['x'] = x
    return r
