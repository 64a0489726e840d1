#!/usr/bin/env python3
"""check.py Cxx: decide one property of sorpaas/bm.

Every check has the parts listed for it in PLANS (bin/plans.py):

  Model   TLC explores a specification exhaustively within bounds; the
          transitions it prints are replayed in the real code;
  Traces  seeded histories recorded from the real code are checked by TLC
          against a trace specification; copies of some of them with one
          observation changed must be rejected (otherwise the check is void);
  Probe   a program of the harness re-examines one known finding.

Exit 0: held.  1: violated (VIOLATION line).  2: the check itself failed.
"""
import json, os, random, re, resource, shutil, subprocess, sys, tempfile, threading, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, 'spec')
HARNESS = os.path.join(ROOT, 'harness')
EVID = os.path.join(ROOT, 'evidence')
TLA = '/opt/veriftools/tla'
JAR = TLA + '/tla2tools.jar'
CM = TLA + '/CommunityModules-deps.jar'

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
THOROUGH = TIER == 'thorough'
LIMIT = 60 if not THOROUGH else 3000      # seconds for one harness run
TLC_LIMIT = 600 if not THOROUGH else 5400


class Broken(Exception):
    """The check itself cannot be carried out."""


class Violation(Exception):
    def __init__(self, text, data):
        Exception.__init__(self, text)
        self.text, self.data = text, data


def log(*a):
    print('#', *a, flush=True)


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.work = tempfile.mkdtemp(prefix='bmcheck-')
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0,
                    'edges_replayed': 0, 'edge_executions': 0, 'trace_events': 0,
                    'canaries_rejected': 0, 'models': [], 'trace_sets': [], 'samples': []}
        self.findings = []
        self.lock = threading.Lock()
        self.bins = {}
        self.n = 0

    def path(self, name):
        with self.lock:
            self.n += 1
            return os.path.join(self.work, '%d-%s' % (self.n, name))

    # ------------------------------------------------------------ building
    def build(self, bins):
        t = time.time()
        cmd = ['cargo', 'build', '--offline', '--quiet']
        for b in bins:
            cmd += ['--bin', b]
        if 'wire' in bins:
            cmd += ['--features', 'wire']
        env = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTFLAGS='-Awarnings')
        env.setdefault('CARGO_TARGET_DIR', os.path.join(HARNESS, 'target'))
        p = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            sys.stdout.write(p.stdout.decode('utf8', 'replace')[-4000:])
            raise Broken('the harness does not build against /repo')
        for b in bins:
            self.bins[b] = os.path.join(env['CARGO_TARGET_DIR'], 'debug', b)
        log('harness built in %.1f s' % (time.time() - t))

    def java(self):
        cls = os.path.join(self.work, 'classes')
        os.mkdir(cls)
        src = [os.path.join(SPEC, 'java', f) for f in os.listdir(os.path.join(SPEC, 'java'))]
        p = subprocess.run(['javac', '-cp', JAR, '-d', cls] + src, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise Broken('javac: ' + p.stdout.decode())
        self.cls = cls

    # ------------------------------------------------------------- running
    def harness(self, bin, what, out, inp='', seed=None):
        """Run the harness; what it prints.  Its death is a violation."""
        begun = self.path('begun')
        env = dict(os.environ, BMH_BEGUN=begun)

        def limits():
            resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

        cmd = [self.bins[bin], what, out, str(SEED if seed is None else seed), TIER] + ([inp] if inp else [])
        try:
            p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               timeout=LIMIT * 5, preexec_fn=limits)
        except subprocess.TimeoutExpired:
            raise Broken('%s %s did not end' % (bin, what))
        if p.returncode:
            op = open(begun, errors='replace').readline().strip() if os.path.exists(begun) else ''
            err = p.stderr.decode('utf8', 'replace')[-2000:]
            raise Violation('the program under test ended with %d during %s' % (p.returncode, op[:300]),
                            {'command': cmd, 'status': p.returncode, 'operation': op, 'stderr': err})
        return p.stdout.decode('utf8', 'replace')

    def cfg(self, module, consts, invs, extra=()):
        f = self.path(module + '.cfg')
        with open(f, 'w') as h:
            h.write('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n')
            for k, v in consts.items():
                h.write('CONSTANT %s %s %s\n' % (k, '<-' if isinstance(v, Sub) else '=', v))
            for i in invs:
                h.write('INVARIANT %s\n' % i)
            for e in extra:
                h.write(e + '\n')
        return f

    def tlc(self, module, cfg, env=(), workers=8, tags=None, heap='5g'):
        """Run TLC: (exit code, output without printed lines, {tag: lines})."""
        md = self.path('md')
        cmd = ['java', '-XX:+UseParallelGC', '-Xss64m', '-Xmx' + heap,
               '-cp', ':'.join([JAR, CM, self.cls]), 'tlc2.TLC', '-workers', str(workers),
               '-metadir', md, '-noGenerateSpecTE', '-config', cfg, module + '.tla']
        out = self.path('tlc.out')
        with open(out, 'wb') as h:
            try:
                p = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **dict(env)), stdout=h,
                                   stderr=subprocess.STDOUT, timeout=TLC_LIMIT)
            except subprocess.TimeoutExpired:
                raise Broken('TLC did not finish %s in %d s' % (module, TLC_LIMIT))
        text, printed, seen = [], {}, set()
        with open(out, errors='replace') as h:
            for line in h:
                if line.startswith('@@'):
                    if line not in seen:
                        seen.add(line)
                        tag, _, rest = line[2:].rstrip('\n').partition(' ')
                        printed.setdefault(tag, []).append(rest)
                else:
                    text.append(line)
        shutil.rmtree(md, ignore_errors=True)
        os.unlink(out)
        return p.returncode, ''.join(text), printed


class Sub(str):
    """A constant substituted by a definition of the module."""


def counts(text):
    m = re.findall(r'^(\d+) states generated, (\d+) distinct states found', text, re.M)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


# ------------------------------------------------------------------- parts

class Model:
    """Exhaustive exploration, with replay of the printed transitions."""

    def __init__(self, module, consts, invs, replay=None, view=None, tag='EDGE', thorough=None, extra=(), heap='5g', workers=8, feed=None):
        self.module, self.consts, self.invs = module, consts, invs
        self.replay, self.view, self.tag, self.thorough = replay, view, tag, thorough
        self.extra, self.heap, self.workers = extra, heap, workers
        self.feed = feed          # (program, what, variable): input the harness gives the model

    def bins(self):
        return [self.replay[0]] if self.replay else []

    def run(self, cx):
        t = time.time()
        consts, view = dict(self.consts), self.view
        if THOROUGH and self.thorough is not None:
            consts.update(self.thorough)
        extra = list(self.extra) + (['VIEW ' + view] if view else [])
        env = {}
        if self.feed:
            bin, what, var = self.feed
            env[var] = cx.path('feed')
            cx.harness(bin, what, env[var])
        rc, text, printed = cx.tlc(self.module, cx.cfg(self.module, consts, self.invs, extra), env=env, heap=self.heap, workers=self.workers)
        if rc:
            print(text[-6000:])
            raise Broken('model %s: TLC ended with %d' % (self.module, rc))
        gen, distinct = counts(text)
        if not distinct:
            raise Broken('model %s: no states' % self.module)
        edges = printed.get(self.tag, [])
        states = printed.get('STATE', [])
        with cx.lock:
            cx.cov['states'] += distinct
            cx.cov['transitions'] += gen
        log('%s: %d states, %d transitions, %d printed, %.1f s' % (self.module, distinct, gen, len(edges), time.time() - t))
        info = {'module': self.module, 'constants': {k: str(v) for k, v in consts.items()},
                'states': distinct, 'transitions': gen, 'invariants': list(self.invs), 'printed': len(edges)}
        if self.replay:
            if not edges:
                raise Broken('model %s printed no transitions' % self.module)
            bin, what = self.replay
            inp, out = cx.path('edges'), cx.path('failures')
            with open(inp, 'w') as h:
                h.write('\n'.join(states + edges) + '\n')
            said = cx.harness(bin, what, out, inp)
            m = re.search(r'EDGES (\d+) REPLAYED (\d+) FAILED (\d+)', said)
            if not m:
                # The watchdog ended it.
                raise Violation('an operation does not end', {'replaying': self.module, 'said': said[-500:],
                                'log': open(out).read()[-3000:] if os.path.exists(out) else ''})
            n, k, bad = map(int, m.groups())
            info['edges_replayed'], info['executions'] = n, k
            with cx.lock:
                cx.cov['edges_replayed'] += n
                cx.cov['edge_executions'] += k
                cx.cov['samples'].append(json.loads(edges[len(edges) * 2 // 3]))
            if bad:
                first = open(out).readline()
                raise Violation('%d of %d transitions of %s behave differently in the code; first: %s'
                                % (bad, k, self.module, first[:600]), {'model': self.module, 'failure': json.loads(first)})
            if n < len(edges):
                raise Broken('%s: only %d of %d transitions could be replayed' % (self.module, n, len(edges)))
            log('%s: %d transitions replayed in %d executions' % (self.module, n, k))
        with cx.lock:
            cx.cov['models'].append(info)


class Traces:
    """Histories recorded from the real code, checked against a specification."""

    def __init__(self, bin, what, module, consts=None, canary=None, parts=1, seeds=1):
        self.bin, self.what, self.module = bin, what, module
        self.consts = consts or {}
        self.canary = canary      # fields whose change must be noticed: [(condition, field)]
        self.seeds = seeds

    def bins(self):
        return [self.bin]

    def judge(self, cx, path, consts, workers=8):
        rc, text, _ = cx.tlc(self.module, cx.cfg(self.module, consts, ['Conforms'], ['ALIAS Alias']),
                             env={'TRACES': path}, workers=workers)
        return rc, text

    def run(self, cx):
        t = time.time()
        consts = {'Prop': '"%s"' % cx.prop}
        consts.update(self.consts)
        path = cx.path('traces')
        said = cx.harness(self.bin, self.what, path)
        with open(path) as h:
            lines = h.read().splitlines()
        if not lines:
            raise Broken('no traces recorded')
        events = sum(len(json.loads(l)) for l in lines)
        log('%s %s: %d traces, %d events recorded, %.1f s' % (self.bin, self.what, len(lines), events, time.time() - t))
        rc, text = self.judge(cx, path, consts)
        gen, distinct = counts(text)
        if rc == 12:
            raise self.violation(text, lines)
        if rc:
            # An event the specification cannot even be evaluated on.
            print(text[-5000:])
            raise Broken('trace specification %s: TLC ended with %d' % (self.module, rc))
        if 'HANG' in said:
            raise Violation('an operation does not end', {'trace': lines[-1][-4000:]})
        if distinct < events:
            raise Broken('%s: %d states for %d events' % (self.module, distinct, events))
        log('%s: %d traces conform, %.1f s' % (self.module, len(lines), time.time() - t))
        with cx.lock:
            cx.cov['states'] += distinct
            cx.cov['transitions'] += gen
            cx.cov['traces_validated_against_impl'] += len(lines)
            cx.cov['trace_events'] += events
            cx.cov['trace_sets'].append({'program': self.bin + ' ' + self.what, 'specification': self.module,
                                         'traces': len(lines), 'events': events})
            short = min(lines, key=len)
            cx.cov['samples'].append(json.loads(short)[:12])
        self.canaries(cx, lines, consts)

    def violation(self, text, lines):
        m = re.search(r'/\\ trace = (\d+)[^/]*(?:/\\[^\n]*\n)*', text)
        blocks = text.split('State ')
        last = blocks[-1]
        tid = re.search(r'trace = (\d+)', last)
        ev = re.search(r'event = (\d+)', last)
        logged = re.search(r'logged = "(.*)"', last)
        expected = re.search(r'expected = "(.*)"', last)
        un = lambda g: g.group(1).replace('\\"', '"') if g else ''
        data = {'specification': self.module, 'trace': int(tid.group(1)) if tid else None,
                'event': int(ev.group(1)) if ev else None, 'logged': un(logged), 'expected': un(expected)}
        if tid:
            data['history'] = json.loads(lines[int(tid.group(1)) - 1])[:data['event']]
        return Violation('event %s of trace %s is not allowed by %s: %s; expected: %s' % (
            data['event'], data['trace'], self.module, data['logged'][:400], data['expected'][:400]), data)

    def canaries(self, cx, lines, consts):
        """Changed observations must be rejected."""
        if not self.canary:
            return
        rng = random.Random(SEED)
        small = [l for l in lines if len(l) < 400000] or lines
        bad, what = [], []
        for cond, field, *how in self.canary:
            for _ in range(400):
                tr = json.loads(rng.choice(small))
                idx = [i for i in range(1, len(tr)) if field in tr[i] and cond(tr[i])]
                if not idx:
                    continue
                i = rng.choice(idx)
                new = how[0](tr[i]) if how else mutate(tr[i][field], rng)
                if new is None:
                    continue
                tr[i][field] = new
                bad.append(tr)
                what.append(field)
                break
            else:
                raise Broken('no event with field %s to change' % field)
        for tr, field in zip(bad, what):
            path = cx.path('canary')
            with open(path, 'w') as h:
                h.write(json.dumps(tr) + '\n')
            rc, text = self.judge(cx, path, consts, workers=1)
            if rc != 12:
                print(text[-3000:])
                raise Broken('a trace with a changed field %s was not rejected' % field)
        with cx.lock:
            cx.cov['canaries_rejected'] += len(bad)
        log('%s: %d changed traces rejected' % (self.module, len(bad)))


def mutate(v, rng):
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + 1
    if isinstance(v, str):
        if v == '' or not re.fullmatch('[0-9a-f]+', v):
            return 'ok' if v != 'ok' else 'corrupted'
        k = rng.randrange(len(v))
        return v[:k] + ('0' if v[k] != '0' else '1') + v[k + 1:]
    if isinstance(v, dict):
        k = sorted(v)[rng.randrange(len(v))]
        new = mutate(v[k], rng)
        return None if new is None else dict(v, **{k: new})
    if isinstance(v, list):
        if not v:
            return None
        k = rng.randrange(len(v))
        new = mutate(v[k], rng)
        if new is None:
            return None
        return v[:k] + [new] + v[k + 1:]
    return None


class Probe:
    """Re-examine a known finding: the harness prints STILL or GONE."""

    def __init__(self, bin, what, ident):
        self.bin, self.what, self.ident = bin, what, ident

    def bins(self):
        return [self.bin]

    def run(self, cx):
        out = cx.path('probe')
        said = cx.harness(self.bin, self.what, out)
        if 'STILL' in said:
            for l in known():
                if l['id'] == self.ident and l['property'] == cx.prop:
                    with cx.lock:
                        cx.findings.append(l['text'])
                    return
            raise Violation('finding %s is not listed' % self.ident, {'probe': self.what, 'said': said})
        if 'GONE' not in said:
            raise Violation('probe %s: %s' % (self.what, said[-300:]), {'probe': self.what, 'said': said})


def known():
    """Lines `finding: id=<id> property=<Cxx> <what fails>' of known-findings.txt."""
    res = []
    with open(os.path.join(ROOT, 'known-findings.txt')) as h:
        for l in h:
            m = re.match(r'finding: id=(\S+) property=(\S+) (.*)', l)
            if m:
                res.append({'id': m.group(1), 'property': m.group(2), 'text': m.group(3)})
    return res


# --------------------------------------------------------------------- main

def main():
    sys.path.insert(0, os.path.join(ROOT, 'bin'))
    sys.dont_write_bytecode = True
    import plans
    prop = sys.argv[1]
    plan = plans.plan(prop, THOROUGH)
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    cx = Ctx(prop)
    status, replay = 0, None
    try:
        try:
            bins = sorted({b for p in plan for b in p.bins()})
            java = threading.Thread(target=cx.java)
            java.start()
            if bins:
                cx.build(bins)
            java.join()
            if not hasattr(cx, 'cls'):
                raise Broken('no classes for TLC')
            for p in plan:
                p.run(cx)
        except Violation as v:
            status = 1
            replay = os.path.join(EVID, 'replay-%s.json' % prop)
            with open(replay, 'w') as h:
                json.dump({'property': prop, 'seed': SEED, 'tier': TIER, 'what': v.text, 'data': v.data}, h, indent=1)
            log(v.text[:1500])
        cov = cx.cov
        ev = {'property': prop, 'tier': TIER, 'seed': SEED, 'level': plans.level(prop),
              'coverage': dict(cov, rule=plans.rule(prop)) if plans.rule(prop) else cov,
              'assumptions': plans.assumptions(prop),
              'wall_s': round(time.time() - t0, 2), 'violations': status}
        if plans.level(prop) == 'fault_enumeration':
            cov['evaluations'] = cov['edge_executions'] + cov['trace_events']
            cov['distinct_nontrivial'] = cov['states']
        with open(os.path.join(EVID, prop + '.json'), 'w') as h:
            json.dump(ev, h, indent=1)
        for f in cx.findings:
            print('KNOWN-FINDING: property=%s %s' % (prop, f))
        if status:
            print('VIOLATION property=%s replay=%s' % (prop, os.path.relpath(replay, ROOT)))
        else:
            print('OK property=%s %.1f s' % (prop, time.time() - t0))
    except Broken as b:
        print('ERROR property=%s %s' % (prop, b))
        status = 2
    finally:
        shutil.rmtree(cx.work, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(status)


if __name__ == '__main__':
    main()
