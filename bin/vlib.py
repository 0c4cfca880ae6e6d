"""What every check shares: TLC, harness build, replay, evidence, verdicts."""
import atexit, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPECS = os.path.join(VERIF, 'specs')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1'))
THOROUGH = TIER == 'thorough'
JOBS = min(8, os.cpu_count() or 4)


class Broken(Exception):
    """The check itself can not give an answer (exit 2)."""


class Violation(Exception):
    """The code does not do what the specification says."""
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


def go_env():
    env = dict(os.environ)
    out = subprocess.run(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; env -0'],
                         capture_output=True).stdout.decode()
    for kv in out.split('\0'):
        if '=' in kv:
            k, v = kv.split('=', 1)
            if k.startswith('GO') or k == 'PATH' or k.startswith('CGO'):
                env[k] = v
    env['GOFLAGS'] = '-mod=mod'
    env['GOPROXY'] = 'off'
    env['GOTOOLCHAIN'] = 'local'
    return env


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix='verif-%s-' % pid, dir='/tmp')
        if not os.environ.get('VERIF_KEEP'):
            atexit.register(lambda: shutil.rmtree(self.dir, ignore_errors=True))
        self.states = self.transitions = self.validated = self.steps = 0
        self.samples, self.models, self.extra = [], [], {}
        self.assumptions = []
        self.found = []
        self.env = go_env()
        self.rng = random.Random(SEED)
        self._built = {}

    def log(self, *a):
        print('[%s %5.1fs]' % (self.pid, time.time() - self.t0), *a, file=sys.stderr, flush=True)

    def path(self, *p):
        f = os.path.join(self.dir, *p)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        return f

    # --- TLC ----------------------------------------------------------------
    def tlc(self, module, constants=None, spec='Spec', invariants=(), properties=(), constraints=(),
            action_constraints=(), view=None, postcondition=None, workers=JOBS, timeout=600, name=None,
            extra=(), files=None, symmetry=None, expect=True, java=None):
        """Runs TLC, returns (list of emitted values, raw output)."""
        name = name or module
        d = self.path('tlc', name, 'x')[:-2]
        for f in os.listdir(SPECS):
            if f.endswith('.tla'):
                shutil.copy(os.path.join(SPECS, f), d)
        for f, content in (files or {}).items():
            with open(os.path.join(d, f), 'w') as fd:
                fd.write(content)
        cfg = ['SPECIFICATION %s' % spec, 'CHECK_DEADLOCK FALSE']
        cfg += ['INVARIANT %s' % i for i in invariants]
        cfg += ['PROPERTY %s' % i for i in properties]
        cfg += ['CONSTRAINT %s' % i for i in constraints]
        cfg += ['ACTION_CONSTRAINT %s' % i for i in action_constraints]
        if view: cfg.append('VIEW %s' % view)
        if symmetry: cfg.append('SYMMETRY %s' % symmetry)
        if postcondition: cfg.append('POSTCONDITION %s' % postcondition)
        # Constants are given by a module MC, as configuration files do not accept every value
        mc = ['---- MODULE MC ----', 'EXTENDS %s' % module]
        if constants:
            cfg.append('CONSTANTS')
            for k, v in constants.items():
                if isinstance(v, str) and v.startswith('@'):
                    cfg.append('  %s <- %s' % (k, v[1:]))
                else:
                    mc.append('mc_%s == %s' % (k, tla(v)))
                    cfg.append('  %s <- mc_%s' % (k, k))
        with open(os.path.join(d, 'MC.tla'), 'w') as fd:
            fd.write('\n'.join(mc) + '\n====\n')
        with open(os.path.join(d, name + '.cfg'), 'w') as fd:
            fd.write('\n'.join(cfg) + '\n')
        cmd = ['tlc', '-noGenerateSpecTE', '-workers', str(workers), '-metadir', os.path.join(d, 'meta'),
               '-seed', str(SEED), '-fp', '0', '-config', name + '.cfg', *extra, 'MC.tla']
        env = dict(os.environ)
        if java: env['JAVA_TOOL_OPTIONS'] = java
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=d, capture_output=True, timeout=timeout, env=env)
        except subprocess.TimeoutExpired:
            raise Broken('TLC timed out on %s' % name)
        out = p.stdout.decode(errors='replace')
        vals, other = [], []
        for line in out.split('\n'):
            if line.startswith('"@@'):
                vals.append(json.loads(json.loads(line)[2:]))
            else:
                other.append(line)
        raw = '\n'.join(other)
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', raw)
        gen, dis = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        self.states += dis
        self.transitions += gen
        self.models.append(dict(model=name, states=dis, transitions=gen, emitted=len(vals),
                                seconds=round(time.time() - t, 1)))
        self.log('TLC %s: %d states, %d emitted, %.1fs' % (name, dis, len(vals), time.time() - t))
        if expect and (p.returncode != 0 or not m):
            raise Broken('TLC fails on the specification %s:\n%s\n%s' % (name, re.sub(r"(?s)(.{5000}).*(.{1000})$", r"\1 ... \2", raw), p.stderr.decode()[-2000:]))
        return vals, raw

    # --- building the code under test -----------------------------------------
    def run(self, cmd, cwd=None, timeout=600, env=None, check=True):
        p = subprocess.run(cmd, cwd=cwd, capture_output=True, timeout=timeout, env=env or self.env)
        if check and p.returncode != 0:
            raise Broken('%s fails:\n%s\n%s' % (' '.join(cmd), p.stdout.decode()[-3000:], p.stderr.decode()[-3000:]))
        return p

    def cli(self):
        """Builds the generator from the current tree of the repository."""
        if 'cli' not in self._built:
            out = self.path('cli', 'asyncapi-codegen')
            self.run(['go', 'build', '-o', out, './cmd/asyncapi-codegen'], cwd=REPO)
            self._built['cli'] = out
        return self._built['cli']

    def harness(self):
        """Prepares the directory of the harness."""
        if 'harness' not in self._built:
            h = os.path.join(self.dir, 'h')
            shutil.copytree(os.path.join(VERIF, 'harness'), h)
            mod = open(os.path.join(REPO, 'go.mod')).read()
            req = mod[mod.index('require'):]
            with open(os.path.join(h, 'go.mod'), 'w') as fd:
                fd.write('module verifharness\n\ngo 1.21\n\nrequire github.com/lerenn/asyncapi-codegen v0.0.0\n\n'
                         'replace github.com/lerenn/asyncapi-codegen => %s\n\n%s' % (REPO, req))
            shutil.copy(os.path.join(REPO, 'go.sum'), os.path.join(h, 'go.sum'))
            self._built['harness'] = h
        return self._built['harness']

    def generate(self, pkg, docs, args=(), must=True, relative=False, out='gen.go'):
        """Generates the package of a document (list of files, first is the main one)."""
        h = self.harness()
        d = os.path.join(h, 'gen', pkg)
        os.makedirs(d, exist_ok=True)
        cmd = [self.cli()]
        for f in docs:
            cmd += ['-i', os.path.relpath(f, os.path.dirname(docs[0])) if relative else f]
        cmd += ['-p', pkg, '-o', os.path.join(d, out), *args]
        p = self.run(cmd, timeout=120, check=False, cwd=os.path.dirname(docs[0]) if relative else None)
        if p.returncode != 0 and must:
            self.violation('the generator rejects a supported document',
                           dict(document=open(docs[0]).read(), args=list(args), status=p.returncode,
                                stderr=p.stderr.decode()[-3000:], stdout=p.stdout.decode()[-3000:]))
        return p, os.path.join(d, out)

    def glue(self, pkgs):
        h = self.harness()
        g = self.path('cli', 'glue')
        if not os.path.exists(g):
            self.run(['go', 'build', '-o', g, './cmd/glue'], cwd=h)
        self.run([g] + [os.path.join(h, 'gen', p) for p in pkgs])

    def build(self, cmd, pkgs=(), race=False, shake=(), name=None):
        """Builds a command of the harness with the generated packages. The files of the repository given by
        shake are instrumented: the harness is called before each of their statements (core.Yield)."""
        h = self.harness()
        overlay = []
        if shake:
            d = self.path('yield', name or cmd, 'x')[:-2]
            self.run(['go', 'run', './cmd/yieldify', d, os.path.join(d, 'overlay.json')] +
                     [os.path.join(REPO, f) for f in shake], cwd=h)
            overlay = ['-overlay', os.path.join(d, 'overlay.json'), '-tags', 'yield']
        if pkgs:
            self.glue(pkgs)
        with open(os.path.join(h, 'cmd', cmd, 'imports.go'), 'w') as fd:
            fd.write('package main\n\nimport (\n%s)\n' % ''.join('\t_ "verifharness/gen/%s"\n' % p for p in pkgs))
        out = os.path.join(self.dir, 'bin-' + (name or cmd))
        args = ['go', 'build', '-o', out] + overlay + (['-race'] if race else []) + ['./cmd/' + cmd]
        p = self.run(args, cwd=h, check=False)
        if p.returncode != 0:
            err = p.stderr.decode()
            if re.search(r'^gen/', err, re.M) and not re.search(r'verif_glue', err):
                self.violation('the generated code does not compile', dict(output=err[-5000:]))
            raise Broken('the harness does not build:\n' + err[-5000:])
        self.log('built', cmd)
        return out

    # --- replay --------------------------------------------------------------
    def replay(self, binary, mode, scenarios, args=(), shards=JOBS, timeout=600, label=None, env=None, again=0):
        """Replays scenarios (JSON values) on the real code, in parallel processes.
        Raises a Violation for the first mismatch, or crash. With again, what does not depend on the schedule has to be
        seen again when its scenario is replayed that number of times (clients of the network, with their own timers)."""
        label = label or mode
        f = self.path('replay', label + '.jsonl')
        with open(f, 'w') as fd:
            for s in scenarios:
                fd.write(json.dumps(s, separators=(',', ':')) + '\n')
        shards = max(1, min(shards, len(scenarios)))
        t = time.time()
        results, crashes = self._run_shards(binary, mode, f, args, shards, timeout, label, env)
        checked = sum(r['checked'] for r in results)
        self.validated += checked
        self.steps += sum(r.get('steps', 0) for r in results)
        for r in results:
            if len(self.samples) < 4 and r.get('samples'):
                self.samples.append(r['samples'][0])
            for k, v in (r.get('extra') or {}).items():
                self.extra[k] = self.extra.get(k, 0) + v if isinstance(v, (int, float)) else v
        self.log('replay %s: %d scenarios, %d steps, %.1fs' % (label, checked, sum(r.get('steps', 0) for r in results), time.time() - t))
        mism = [m for r in results for m in (r.get('mismatches') or [])]
        for c in crashes:
            if c['timeout']:
                raise Broken('the harness does not end on %s (%s)' % (label, c['scenario'][:300]))
            if not c['panic']:
                raise Broken('the harness fails on %s: status %s\n%s' % (label, c['status'], c['stderr'][-3000:]))
            mism.append(dict(scenario=json.loads(c['scenario']) if c['scenario'] else None, where='crash of the process',
                             expected='no panic', observed=c['stderr'][-6000:]))
        if again and mism and all(m.get('scenario') for m in mism):
            part = [m['scenario'] for m in mism[:24]]
            self.log('%d mismatches of %s, replayed again: %s' % (len(mism), label, '; '.join(m.get('where', '') for m in mism[:5])))
            self.replay(binary, mode, part * again, args, shards, timeout, label + '.again', env)
            return results
        for m in mism:
            self.mismatch(label, m)
        return results

    def traces(self, module, results, constants, name=None, batch=400, timeout=600):
        """Checks with TLC that the recorded traces are behaviours of the specification."""
        traces = [t for r in results for t in (r.get('traces') or [])]
        uniq = sorted({json.dumps(t, sort_keys=True) for t in traces})
        self.log('%d traces, %d distinct' % (len(traces), len(uniq)))
        for i in range(0, len(uniq), batch):
            part = uniq[i:i + batch]
            vals, _ = self.tlc(module, constants=constants, spec='TraceSpec', invariants=['Report'],
                               name='%s.%d' % (name or module, i // batch), timeout=timeout,
                               files={'traces.json': '[' + ','.join(part) + ']'})
            ok = {int(v) for v in vals}
            for j, t in enumerate(part):
                if j + 1 not in ok:
                    self.violation('an execution of the code is not a behaviour of the specification %s' % module,
                                   dict(trace=json.loads(t)))
            self.validated += len(part)
            self.steps += sum(len(json.loads(t)['ev']) for t in part)
        if uniq and len(self.samples) < 4:
            self.samples.append(json.loads(uniq[0]))
        return len(uniq)

    def mismatch(self, label, m):
        """A confirmed difference between the specification and the code."""
        self.violation('%s: %s' % (label, m.get('where', '')), dict(mode=label, **m))

    def _run_shards(self, binary, mode, f, args, shards, timeout, label, env):
        procs = []
        for i in range(shards):
            out, prog = self.path('replay', '%s.%d.out' % (label, i)), self.path('replay', '%s.%d.cur' % (label, i))
            for x in (out, prog):
                if os.path.exists(x): os.remove(x)
            err = open(self.path('replay', '%s.%d.err' % (label, i)), 'wb')
            e = dict(self.env, VERIF_SCRATCH=self.path('scratch', '%s.%d' % (label, i), 'x')[:-2])
            e.update(env or {})
            p = subprocess.Popen([binary, '-mode', mode, '-in', f, '-out', out, '-shard', str(i), '-shards', str(shards),
                                  '-progress', prog, *args], stdout=subprocess.DEVNULL, stderr=err, env=e)
            procs.append((p, out, prog, err))
        results, crashes = [], []
        deadline = time.time() + timeout
        for p, out, prog, err in procs:
            to = False
            try:
                p.wait(max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                p.kill(); p.wait(); to = True
            err.close()
            if p.returncode == 0 and os.path.exists(out):
                results.append(json.load(open(out)))
            else:
                stderr = open(err.name, errors='replace').read()
                cur = open(prog).read() if os.path.exists(prog) else ''
                if 'WARNING: DATA RACE' in stderr and not self._race(stderr):
                    raise Broken('a data race of the harness:\n' + stderr[:5000])
                panic = bool(re.search(r'^(panic:|fatal error: all goroutines|fatal error: concurrent|WARNING: DATA RACE)', stderr, re.M)) \
                    and 'harness error:' not in stderr.split('\ngoroutine ')[0]
                crashes.append(dict(scenario=cur, stderr=stderr[:8000], status=p.returncode, timeout=to, panic=panic))
        return results, crashes

    def _race(self, stderr):
        """Is a data race between accesses of the code under test (a race on a variable of the harness is not) ?"""
        for rep in stderr.split('WARNING: DATA RACE')[1:]:
            tops = re.findall(r'(?:Read|Write|read|write) at 0x\w+ by [^\n]*\n  [^\n]*\n +(\S+?):\d+', rep.split('==================')[0])
            if any(REPO + '/' in t or '/h/gen/' in t for t in tops):
                return True
            # inside the runtime or a library (maps...): the first file that is not of the toolchain
            for block in re.findall(r'(?:Read|Write|read|write) at 0x\w+ by [^\n]*\n((?:  .*\n +.*\n)+)', rep):
                files = [f for f in re.findall(r'\n +(\S+?):\d+', block) if '/src/' not in f or REPO in f]
                if files and (files[0].startswith(REPO + '/') or '/h/gen/' in files[0] or '/yield/' in files[0]):
                    return True
        return False

    # --- verdict ---------------------------------------------------------------
    def violation(self, what, replay):
        raise Violation(what, replay)

    def known(self):
        """Known findings of this property: (regular expression on the replay, description)."""
        out = []
        p = os.path.join(VERIF, 'known_findings.jsonl')
        if os.path.exists(p):
            for l in open(p):
                l = l.strip()
                if l:
                    k = json.loads(l)
                    if k.get('property') == self.pid and k.get('status') == 'known':
                        out.append(k)
        return out

    def evidence(self, violations, level='model_checking'):
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.validated,
                   steps_compared=self.steps, models=self.models, samples=self.samples[:4], **self.extra)
        e = dict(property=self.pid, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level=level,
                 coverage=cov, assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1), violations=violations)
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + '.json'), 'w') as fd:
            json.dump(e, fd, indent=1)
            fd.write('\n')


def tours(edges, max_len=100, seed=SEED):
    """Walks from the initial state (0) that cover every edge. edges: list of dicts s, t, a, o.
    Returns lists of edge indices."""
    out = {}
    for i, e in enumerate(edges):
        out.setdefault(e['s'], []).append(i)
    rng = random.Random(seed)
    for l in out.values():
        rng.shuffle(l)
    # tree of the shortest paths from the initial state
    parent, queue = {0: None}, [0]
    for x in queue:
        for i in out.get(x, ()):
            t = edges[i]['t']
            if t not in parent:
                parent[t] = i
                queue.append(t)
    if len(parent) != len(set(out) | {e['t'] for e in edges}):
        raise Broken('some states can not be reached from the initial one')
    left = {s: list(out.get(s, ())) for s in queue}
    walks = []
    for start in queue:
        while left[start]:
            walk, x = [], start
            while parent[x] is not None:
                walk.append(parent[x])
                x = edges[parent[x]]['s']
            walk.reverse()
            x = start
            while len(walk) < max_len:
                if left[x]:
                    i = left[x].pop()
                else:
                    near = [i for i in out.get(x, ()) if left[edges[i]['t']]]
                    if not near:
                        break
                    i = near[0]
                walk.append(i)
                x = edges[i]['t']
            walks.append(walk)
    return walks


def random_walks(edges, count, length, seed=SEED):
    out = {}
    for i, e in enumerate(edges):
        out.setdefault(e['s'], []).append(i)
    rng = random.Random(seed)
    walks = []
    for _ in range(count):
        s, w = 0, []
        while len(w) < length and out.get(s):
            i = rng.choice(out[s])
            w.append(i)
            s = edges[i]['t']
        walks.append(w)
    return walks


def scenarios(edges, walks, **extra):
    return [dict(steps=[dict(a=edges[i]['a'], o=edges[i]['o']) for i in w], **extra) for w in walks]


def canon(edges):
    """Numbers the states; the order does not depend on TLC's workers."""
    ids = {edges[0]['s']: 0}    # the first transition emitted starts from the (only) initial state
    edges.sort(key=lambda e: (e['s'], json.dumps(e['a'], sort_keys=True), e['t'], json.dumps(e['o'], sort_keys=True)))
    for e in edges:
        for k in ('s', 't'):
            e[k] = ids.setdefault(e[k], len(ids))
    return edges


def tla(v):
    """TLA+ text of a constant."""
    if v is True: return 'TRUE'
    if v is False: return 'FALSE'
    if isinstance(v, int): return str(v)
    if isinstance(v, (set, frozenset)): return '{' + ', '.join(sorted(tla(x) for x in v)) + '}'
    if isinstance(v, (list, tuple)): return '<<' + ', '.join(tla(x) for x in v) + '>>'
    if isinstance(v, dict): return '[' + ', '.join('%s |-> %s' % (k, tla(x)) for k, x in v.items()) + ']'
    if isinstance(v, Raw): return str.__str__(v)
    return '"%s"' % v.replace('\\', '\\\\').replace('"', '\\"')


class Raw(str):
    """A TLA+ expression."""


def main(pid, fn, level='model_checking'):
    c = Check(pid)
    try:
        fn(c)
        if not c.samples:
            c.samples = ['(none)']
        c.evidence(0, level)
        for k in c.known():
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
        print('OK property=%s states=%d transitions=%d replayed=%d steps=%d wall=%.1fs' % (
            pid, c.states, c.transitions, c.validated, c.steps, time.time() - c.t0))
        return 0
    except Violation as v:
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, pid + '.replay.json')
        with open(path, 'w') as fd:
            json.dump(dict(property=pid, what=v.what, replay=v.replay), fd, indent=1, default=str)
        if not c.samples:
            c.samples = [v.what]
        c.evidence(1, level)
        print(v.what)
        for k, x in v.replay.items():
            print('  %s: %s' % (k, (x if isinstance(x, str) else json.dumps(x, default=str))[:3000 if k != 'scenario' else 300]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    except Broken as b:
        print('ERROR of the check %s: %s' % (pid, b), file=sys.stderr)
        return 2
