#!/usr/bin/env python3
"""check.py ID: decides a property. See DESIGN.md."""
import json, os, re, sys
import yaml
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import docs, vlib
from vlib import THOROUGH, VERIF

DOCS = os.path.join(VERIF, 'docs')
CHECKS = {}


def check(pid, level='model_checking'):
    def deco(f):
        CHECKS[pid] = (f, level)
        return f
    return deco


def rt(c):
    """Generated controllers of rt2 and rt3 in the runtime harness."""
    c.generate('rt2', [os.path.join(DOCS, 'rt2.yaml')])
    c.generate('rt3', [os.path.join(DOCS, 'rt3.yaml')])
    return c.build('rt', ['rt2', 'rt3'])


# --- middlewares and settlement ------------------------------------------------

CHAIN = dict(module='Chain', invariants=['Invs'])


def chain(c, n, dirs, progs='@StdProgs', eh=1, name='Chain', ehs='@StdEhs'):
    vals, _ = c.tlc(**CHAIN, name=name, constants=dict(MaxN=n, MaxEh=eh, Progs=progs, Ehs=ehs, Dirs=set(dirs), Emit=True))
    return vals


@check('C01')
def c01(c):
    b = rt(c)
    vals = chain(c, 3, ['recv', 'send', 'wait', 'waitn'], '@StdProgs')
    c.replay(b, 'chain', vals)


@check('C02')
def c02(c):
    vals = chain(c, 2, ['recv'], eh=2)
    w = walks(c, 'delivery', DELIV)
    c.generate('rt2', [os.path.join(DOCS, 'rt2.yaml')])
    c.generate('rt3', [os.path.join(DOCS, 'rt3.yaml')])
    c.generate('lc2', [os.path.join(DOCS, 'lc2.yaml')])
    c.generate('lc3', [os.path.join(DOCS, 'lc3.yaml')])
    b = c.build('rt', ['rt2', 'rt3', 'lc2', 'lc3'])
    c.replay(b, 'chain', vals)
    c.replay(b, 'walk', w)


# --- subscriptions -----------------------------------------------------------------

COMBOS = ['2App', '2User', '3App', '3User']


def lc(c, race=False):
    """Generated controllers of lc2 and lc3 in the runtime harness."""
    c.generate('lc2', [os.path.join(DOCS, 'lc2.yaml')])
    c.generate('lc3', [os.path.join(DOCS, 'lc3.yaml')])
    return c.build('rt', ['lc2', 'lc3'], race=race)


LIFE = dict(Plain=['A', 'B'], Param=['G1', 'G2'], NoCorr={'B'}, QCap=1, MaxOut=1, MaxGen=2, Bad=False, Late=False, Fails=True, UseAll=True)
DELIV = dict(Plain=['A'], Param=['G1'], NoCorr=set(), QCap=1, MaxOut=3, MaxGen=2, Bad=True, Late=True, Fails=False, UseAll=False)


def walks(c, name, consts, combos=COMBOS, spread=True):
    """Walks that cover every transition of the controller; each on one of the combinations (or all of them)."""
    edges, _ = c.tlc('Controller', name=name, constants=dict(consts, Emit=True), invariants=['Invs'],
                     action_constraints=['Emission'], view='view', workers=1)
    edges = vlib.canon(edges)
    w = vlib.tours(edges)
    sc = vlib.scenarios(edges, w, qcap=consts['QCap'])
    for i, s in enumerate(sc):
        s['combos'] = [combos[i % len(combos)]] if spread else combos
    return sc


@check('C03')
def c03(c):
    b = lc(c)
    c.replay(b, 'walk', walks(c, 'delivery', DELIV))


@check('C04')
def c04(c):
    b = lc(c)
    c.replay(b, 'walk', walks(c, 'lifecycle', LIFE, spread=False))


SUBSHAKE = ['pkg/extensions/broker.go']


@check('C05')
def c05(c):
    small = dict(Msgs={1, 2}, Cancels={1, 2}, Cap=1)
    c.tlc('Subscription', spec='FairSpec', constants=dict(small, Msgs={1, 2, 3} if THOROUGH else {1, 2}),
          invariants=['Invs'], properties=['Released'])
    c.tlc('SubscriptionImpl', spec='FairSpec', constants=dict(small, Msgs={1, 2, 3} if THOROUGH else {1, 2}),
          invariants=['Invs'], properties=['Refines', 'Released'], timeout=800)
    b = c.build('ext', race=True, shake=SUBSHAKE)
    for cap, blocked in ((0, 2), (2, 2)):
        edges, _ = c.tlc('SubscriptionWalk', name='walk%d' % cap, workers=1, view='view', invariants=['Invs'], action_constraints=['Emission'],
                         constants=dict(Cap=cap, MaxBlocked=blocked, MaxCancels=3, Emit=True))
        edges = vlib.canon(edges)
        c.replay(b, 'subscription', vlib.scenarios(edges, vlib.tours(edges), qcap=cap), label='walk cap %d' % cap)
    sc = []
    for i in range(400 if THOROUGH else 48):
        sc.append(dict(seed=vlib.SEED * 10007 + i, runs=250, keep=6 if i % 3 else 3, msgs=6, cancels=1 + i % 3, cap=i % 4,
                       gosched=[0, 100, 300][i % 3], sleep=[20, 100, 50, 200][i % 4]))
    r = c.replay(b, 'substress', sc, timeout=800)
    for cap in range(4):
        rs = [dict(traces=[t for t in x.get('traces', []) if t['cap'] == cap]) for x in r]
        c.traces('SubscriptionTrace', rs, dict(Msgs=set(range(1, 7)), Cancels={1, 2, 3}, Cap=max(1, cap)), name='trace%d' % cap)


# --- requests ------------------------------------------------------------------

KINDS = {'own', 'other', 'none', 'stale', 'near', 'bad'}
MWS = {'ok', 'mod', 'err', 'break', 'block'}
REQ1 = dict(Reqs={1}, Corr=True, Kinds=KINDS, Mws=MWS, Faults={'none', 'sub', 'expired'}, QCap=2)
REQ2 = dict(Reqs={1, 2}, Corr=True, Kinds={'own', 'other'}, Mws={'ok', 'block'}, Faults={'none'}, QCap=1)
REQN = dict(Reqs={1, 2}, Corr=False, Kinds={'own', 'bad'}, Mws={'ok', 'mod', 'block'}, Faults={'none', 'sub', 'expired'}, QCap=1)
REQO = dict(Reqs={1}, Corr=True, Kinds={'own', 'other'}, Mws={'ok', 'err'}, Faults={'none', 'sub', 'addr', 'expired'}, QCap=1)
REQOPS = ['askH3', 'askP3', 'askD3', 'askG3', 'uaskH3', 'askH2', 'askP2', 'askO3']


def requests(c, name, consts, ops):
    edges, _ = c.tlc('Request', name=name, constants=dict(consts, Emit=True), invariants=['Invs'],
                     action_constraints=['Emission'], view='view', workers=1)
    sc = vlib.scenarios(edges := vlib.canon(edges), vlib.tours(edges), qcap=consts['QCap'])
    for i, s in enumerate(sc):
        s['op'] = ops[i % len(ops)]
    return sc


REQUESTS = [('one', REQ1, REQOPS), ('two', REQ2, REQOPS), ('nocorr', REQN, ['askN3']), ('address', REQO, ['askO3'])]


def all_requests(c, b, which=REQUESTS):
    for n, consts, ops in which:
        c.replay(b, 'request', requests(c, n, consts, ops), label='request ' + n)


def terminates(c):
    """Liveness, on the specification: a request always ends once its context is done."""
    c.tlc('Request', name='termination', spec='FairSpec', properties=['Terminates'], invariants=['Invs'],
          constants=dict(REQ1, Mws={'ok', 'block'}, Kinds={'own', 'other', 'bad'}, Emit=False))


@check('C06')
def c06(c):
    all_requests(c, rt(c))


@check('C07')
def c07(c):
    terminates(c)
    all_requests(c, rt(c))


# --- publications ------------------------------------------------------------------

def publications(c, calls, depth, burst):
    vals, _ = c.tlc('Publish', constants=dict(MaxCalls=calls, MaxDepth=depth, Burst=burst, Emit=True),
                    invariants=['Invs'], constraints=['Emission'])
    for ver in (2, 3):
        shapes = {}
        for v in vals:
            if v['ver'] == ver:
                shapes.setdefault(json.dumps(v['shape'], sort_keys=True), []).append(v)
        ks = sorted(shapes)
        sh = [json.loads(k) for k in ks]
        d = docs.corr_doc(ver, sh)
        c.generate('corr%d' % ver, [docs.write(c.path('docs', 'corr%d.json' % ver), d)])
        for k, s in zip(ks, sh):
            for v in shapes[k]:
                v['shape'] = s
    return vals


@check('C09')
def c09(c):
    vals = publications(c, 3 if THOROUGH else 2, 3, 64 if THOROUGH else 8)
    c.replay(c.build('rt', ['corr2', 'corr3']), 'publish', vals)


@check('C08')
def c08(c):
    c.generate('rt2', [os.path.join(DOCS, 'rt2.yaml')])
    c.generate('rt3', [os.path.join(DOCS, 'rt3.yaml')])
    c.generate('lc2', [os.path.join(DOCS, 'lc2.yaml')])
    c.generate('lc3', [os.path.join(DOCS, 'lc3.yaml')])
    vals = publications(c, 1, 2, 4)
    b = c.build('rt', ['rt2', 'rt3', 'lc2', 'lc3', 'corr2', 'corr3'])
    c.replay(b, 'publish', vals)
    c.replay(b, 'walk', walks(c, 'lifecycle', LIFE, spread=False), label='walk lifecycle')
    c.replay(b, 'walk', walks(c, 'delivery', DELIV), label='walk delivery')
    all_requests(c, b, REQUESTS[:1] + REQUESTS[3:])


# --- provided middlewares, error handlers and loggers ------------------------------

@check('C24')
def c24(c):
    b = rt(c)
    c.replay(b, 'chain', chain(c, 3, ['recv', 'send', 'wait', 'waitn'], '@LibProgs', ehs='@LogEhs', eh=3))
    l = c.build('log', race=True)
    vals, _ = c.tlc('LogEntry', invariants=['Invs'], constraints=['Emission'], constants=dict(MaxInfo=3 if THOROUGH else 2, Emit=True))
    c.replay(l, 'entry', vals)
    c.replay(l, 'logstress', [dict(logger=x, routines=8, entries=100) for x in ('ecs', 'text')] * 4)


# --- addresses -------------------------------------------------------------------

def addresses(c, lits, n, plain):
    vals, _ = c.tlc('Address', invariants=['Invs'], constraints=['Emission'], constants=dict(Lits=lits, MaxLen=n, MaxPlain=plain, Emit=True))
    vals = json.loads(json.dumps(vals).replace('~', 'é'))   # TLC only reads ASCII
    for ver in (2, 3):
        vs = [v for v in vals if v['ver'] == ver]
        d, info = docs.address_doc(ver, {v['tpl'] for v in vs})
        c.generate('addr%d' % ver, [docs.write(c.path('docs', 'addr%d.json' % ver), d)])
        for v in vs:
            x = dict(info[v['tpl']])
            pre = x.pop('pre')
            v.update(x, A=v['A'] or {}, B=v['B'] or {})
            for st in v['steps']:
                st['o'] = [o.split(' ', 1)[0] + ' ' + o.split(' ', 2)[1] + ' ' + pre + o.split(' ', 2)[2] if o.startswith('broker ')
                           else 'handler ' + pre + o[8:] if o.startswith('handler ') else o for o in st['o']]
                st['addr'] = pre + st['addr']
    return vals


def reply_addresses(c, depth):
    vals, _ = c.tlc('ReplyAddress', invariants=['Invs'], constraints=['Emission'], constants=dict(MaxDepth=depth, Emit=True))
    shapes = {}
    for v in vals:
        shapes.setdefault(json.dumps(v['shape'], sort_keys=True), []).append(v)
    sh = [json.loads(k) for k in sorted(shapes)]
    c.generate('replyaddr', [docs.write(c.path('docs', 'replyaddr.json'), docs.reply_address_doc(sh))])
    for k, s in zip(sorted(shapes), sh):
        for v in shapes[k]:
            v['shape'] = s
    return vals


@check('C10')
def c10(c):
    vals = addresses(c, {'.', '%', '"', '\\', '~/'} | ({'d', '#'} if THOROUGH else set()), 3, 1)
    reps = reply_addresses(c, 3)
    b = c.build('rt', ['addr2', 'addr3', 'replyaddr'])
    c.replay(b, 'address', vals)
    c.replay(b, 'replyaddress', reps)


# --- schemas ---------------------------------------------------------------------

def norm(v):
    """TLC writes empty functions as empty sequences."""
    if isinstance(v, dict):
        v = {k: norm(x) for k, x in v.items()}
        for k in ('props', 'm'):
            if v.get(k) == []: v[k] = {}
        return v
    return [norm(x) for x in v] if isinstance(v, list) else v


def echoes(c, name, vals, vers=(2, 3), size=60):
    """Packages with the messages of the scenarios; returns what to replay."""
    sc, pkgs = [], []
    for ver in vers:
        vs = [v for v in vals if v.get('ver', ver) == ver]
        for k in range(0, len(vs), size):
            pkg = '%s%d_%d' % (name, ver, k // size)
            doc = docs.Doc(ver, pkg)
            for i, v in enumerate(vs[k:k + size]):
                names = docs.envs(doc, v['env'], i, v.get('typed', True))
                for m, kd, p in zip(v['msgs'], v['kinds'], v['probes']):
                    sc.append(docs.echo(doc, m, kd, p, names, v.get('typed', True)))
            c.generate(pkg, [doc.write(c.path('docs', pkg + '.json'))])
            pkgs.append(pkg)
    return sc, pkgs


@check('C18')
def c18(c):
    import concurrent.futures
    def documents(name):
        return c.tlc(name, invariants=['Invs'], constraints=['Emission'], constants=dict(MaxDev=3 if THOROUGH else 2, Emit=True))[0]
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        vals, traits, alts = ex.map(documents, ('Compose', 'Traits', 'Alternatives'))
    sc, pkgs = echoes(c, 'compose', norm(vals))
    sc2, pkgs2 = echoes(c, 'traits', norm(traits), [3])
    # the messages of AsyncAPI v3 only have alternatives as an extension
    alts = [dict(v, ver=ver) for i, v in enumerate(norm(alts)) for ver in (2, 3) if ver == 2 or i % 3 == 0]
    sc3, pkgs3 = echoes(c, 'alternatives', alts)
    b = c.build('wire', pkgs + pkgs2 + pkgs3)
    c.replay(b, 'echo', sc3, label='alternatives')
    c.replay(b, 'echo', sc, label='compose')
    c.replay(b, 'echo', sc2, label='traits')


def refs(c):
    """One operation per document of the specification, in packages with a dependency."""
    vals, _ = c.tlc('Refs', invariants=['Invs'], constraints=['Emission'], constants=dict(PairForms={'ref', 'chain2', 'dep', 'depchain'} if THOROUGH else {'ref', 'dep'}, Emit=True))
    vals = norm(vals)
    sc, pkgs = [], []
    for ver in (2, 3):
        vs = [v for v in vals if v['ver'] == ver]
        plain = next(v for v in vs if v['probes'])
        probes = [docs.probe(p) for p in plain['probes']]
        for k in range(0, len(vs), 60):
            pkg = 'refs%d_%d' % (ver, k // 60)
            doc = docs.RefDocs(ver, pkg)
            for v in vs[k:k + 60]:
                sc.append(dict(doc.add(v), raw=False, json=plain['kinds']['json'], probes=probes))
            c.generate(pkg, doc.write(os.path.dirname(c.path('docs', 'x'))), relative=True)
            pkgs.append(pkg)
    return sc, pkgs


def write_text(path, s):
    with open(path, 'w') as fd:
        fd.write(s)


def snapshot(d):
    """What is under a directory."""
    out = {}
    for root, dirs, files in os.walk(d):
        for n in dirs: out[os.path.relpath(os.path.join(root, n), d)] = None
        for n in files:
            with open(os.path.join(root, n), 'rb') as fd: out[os.path.relpath(os.path.join(root, n), d)] = fd.read()
    return out


def commands(c, label, cases, same=None):
    """Runs the command line tool for each case: dict(scenario, files=[(name, content, None for a directory)...], args, out, accept, before). It has to
    accept or refuse it; nothing else than the output is written, and nothing at all when it is refused. Returns the outputs; the ones
    of the cases that have the same key (same(case)) have to be the same."""
    import concurrent.futures, shutil, subprocess
    cli = c.cli()

    def one(k):
        i, case = k
        d = os.path.join(c.dir, 'cmd', '%s%d' % (label, i))
        os.makedirs(d)
        for name, content in case['files']() if callable(case['files']) else case['files']:
            if content is None: os.makedirs(os.path.join(d, name), exist_ok=True)
            else:
                os.makedirs(os.path.dirname(os.path.join(d, name)), exist_ok=True)
                write_text(os.path.join(d, name), content)
        out = case.get('out', 'out.gen.go')
        if case.get('before', i % 2): write_text(os.path.join(d, out), 'kept as it was\n')
        before = snapshot(d)
        try:
            p = subprocess.run([cli] + [a.replace('@DIR@', d) for a in case['args']], cwd=d, capture_output=True, timeout=60, env=c.env)
        except subprocess.TimeoutExpired:
            return 'does not end', None, None
        after = snapshot(d)
        shutil.rmtree(d)
        err = (p.stdout + p.stderr).decode('utf-8', 'replace')
        text = after.pop(os.path.normpath(out), None)
        kept = before.pop(os.path.normpath(out), None)
        why = None
        if 'goroutine ' in err and 'panic' in err or p.returncode < 0 or p.returncode == 2 and 'fatal error' in err:
            why = 'crash'
        elif after != before: why = 'other files are changed: %s' % sorted(set(after) ^ set(before) or after)[:3]
        elif case['accept']:
            if p.returncode: why = 'a supported document is refused'
            elif text is None or text == kept: why = 'nothing is generated'
        elif p.returncode == 0: why = 'accepted, without error'
        elif text != kept: why = 'refused, but the output is written'
        return why, (p.returncode, err), text
    res, seen = [], {}
    known = [dict(input=k.get('input'), fails=k.get('fails')) for k in c.known()]
    with concurrent.futures.ThreadPoolExecutor(vlib.JOBS) as ex:
        for (i, case), r in zip(enumerate(cases), ex.map(one, enumerate(cases))):
            if r[0]:
                again = one((i + 2 * len(cases), case))
                if not again[0]:
                    c.log('not confirmed:', case['args'], r[0]); r = again
            if not r[0] and case['accept'] and same and same(case) is not None:
                first = seen.setdefault(same(case), (r, case))
                if first[0][2] != r[2]:
                    r = ('the output is not the one of the command %s' % first[1]['args'], r[1], r[2])
            if r[0] and dict(input=case.get('id'), fails=r[0].split(' the command ')[0]) in known: continue
            if r[0]:
                if os.environ.get('VERIF_ALL'):
                    print(label, r[0], json.dumps(case.get('scenario')), (r[1] or '..')[1][:150].split(chr(10))[0]); continue
                c.violation(r[0], dict(scenario=case.get('scenario'), files=[f for f in (case['files']() if callable(case['files']) else case['files']) if f[1] is None or len(f[1]) < 50000], args=case['args'],
                                       expected='accepted' if case['accept'] else 'refused', status=r[1] and r[1][0], output=r[1] and r[1][1][-3000:]))
            res.append(r[2])
    c.validated += len(cases)
    c.steps += len(cases)
    c.log('commands %s: %d' % (label, len(cases)))
    return res


def broken(c):
    vals, _ = c.tlc('Broken', spec='Spec', invariants=['Right'], properties=['Ends'], constraints=['Emission'],
                    constants=dict(Slots2=set(docs.SLOTS[2]), Slots3=set(docs.SLOTS[3]), Emit=True))
    cases = []
    for v in vals:
        main, dep = docs.broken_doc(v, 'main')
        cases.append(dict(scenario=v, files=[('main.json', json.dumps(main)), ('main_dep.json', json.dumps(dep))],
                          args=['-i', 'main.json,main_dep.json', '-p', 'broken', '-o', 'out.gen.go'], accept=v['o'] == 'accepted'))
    commands(c, 'broken', cases)


FORMS = ['ref', 'chain', 'dep']


def refified(c, form, names):
    """Generates again packages from the documents where all the parts are references."""
    for n, doc in names.items():
        main, other = docs.refified(doc, form, './%s_other.json' % n)
        files = [docs.write(c.path('docs', n + '.json'), main)]
        if other:
            files.append(docs.write(c.path('docs', n + '_other.json'), other))
        c.generate(n, files, relative=True)


def load(name):
    return yaml.safe_load(open(os.path.join(DOCS, name + '.yaml')))


@check('C17')
def c17(c):
    sc, pkgs = refs(c)
    broken(c)
    b = c.build('wire', pkgs)
    c.replay(b, 'echo', sc, label='refs')
    # the behaviour of the operations, when all their parts are references
    reqs = requests(c, 'one', REQ1, REQOPS) + requests(c, 'nocorr', REQN, ['askN3']) + requests(c, 'address', REQO, ['askO3'])
    reps, pubs, adds = reply_addresses(c, 2), publications(c, 1, 2, 4), addresses(c, {'.', '%', '"'}, 2, 1)
    names = {n: load(n) for n in ('rt2', 'rt3')}
    for n in ('replyaddr', 'corr2', 'corr3', 'addr2', 'addr3'):
        names[n] = json.load(open(c.path('docs', n + '.json')))
    for form in FORMS:
        refified(c, form, names)
        b = c.build('rt', sorted(names), name='rt_' + form)
        c.replay(b, 'request', reqs, label='request ' + form)
        c.replay(b, 'replyaddress', reps, label='reply address ' + form)
        c.replay(b, 'publish', pubs, label='publish ' + form)
        c.replay(b, 'address', adds, label='address ' + form)


# --- objects ---------------------------------------------------------------------

def objects(c, size=50):
    vals, _ = c.tlc('Objects', invariants=['Invs'], constants=dict(Full2=THOROUGH, Emit=True))
    vals = norm(vals)
    vals.sort(key=lambda v: json.dumps(v['d'], sort_keys=True))
    sc, pkgs = [], []
    for ver in (2, 3):
        for strat in ('none', 'snake', 'kebab', 'camel'):
            vs = [v for v in vals if v['d']['strat'] == strat]
            for k in range(0, len(vs), size):
                pkg = 'objects%d%s_%d' % (ver, strat, k // size)
                doc = docs.Doc(ver, pkg)
                sc += [docs.objects(doc, v, i) for i, v in enumerate(vs[k:k + size])]
                c.generate(pkg, [doc.write(c.path('docs', pkg + '.json'))], [] if strat == 'none' else ['--convert-keys', strat])
                pkgs.append(pkg)
    return sc, pkgs


@check('C13')
def c13(c):
    sc, pkgs = objects(c)
    c.replay(c.build('wire', pkgs), 'echo', sc, label='objects')


# --- encoding ----------------------------------------------------------------------

def codecs(c, size=24):
    vals, _ = c.tlc('Codec', invariants=['Stable', 'Emission'], constants=dict(Wide=THOROUGH, Emit=True))
    vals = norm(vals)
    vals.sort(key=lambda v: json.dumps(v['d'], sort_keys=True))
    sc, pkgs = [], []
    for ver in (2, 3):
        for force, ignore in ((False, False), (True, False), (False, True)):
            vs = [v for v in vals if v['d']['opts'] == dict(force=force, ignore=ignore)]
            for k in range(0, len(vs), size):
                pkg = 'codec%d%s%s_%d' % (ver, 'f' * force, 'i' * ignore, k // size)
                doc = docs.Doc(ver, pkg)
                sc += [docs.codec(doc, v, i) for i, v in enumerate(vs[k:k + size])]
                c.generate(pkg, [doc.write(c.path('docs', pkg + '.json'))], ['--force-pointers'] * force + ['--ignore-string-format'] * ignore)
                pkgs.append(pkg)
    return sc, pkgs


@check('C12')
def c12(c):
    sc, pkgs = codecs(c)
    c.replay(c.build('wire', pkgs), 'echo', sc, label='codec')


# --- both sides --------------------------------------------------------------------

PARTS = {'whole': [(None, 'gen.go')], 'files': [('application', 'app.go'), ('user', 'user.go'), ('types', 'types.go')], 'sides': None}


def apis(c, dev, size=12):
    vals, _ = c.tlc('Api', invariants=['Sides', 'Delivered', 'ApiEmission'], action_constraints=['Emission'], view='view', constants=dict(MaxDev=dev, Emit=True))
    found, edges = {}, {}
    for v in vals:
        if 'api' in v: found[json.dumps(v['d'], sort_keys=True)] = v
        else: edges.setdefault(json.dumps(v.pop('k'), sort_keys=True), []).append(v)
    sc, pkgs = [], []
    for i, k in enumerate(sorted(found)):
        v = found[k]
        for f in v['api'].values():
            f['methods'], f['handlers'] = sorted(f['methods']), sorted(f['handlers'])
        path = docs.write(c.path('docs', 'api%d.json' % i), docs.api_doc(v))
        es = edges.get(k, [])
        for e in es: e['s'], e['t'] = json.dumps(sorted(e['s'])), json.dumps(sorted(e['t']))
        es.sort(key=lambda e: e['s'] != '[]')   # no subscription at first
        es = vlib.canon(es) if es else []
        walks = [x['steps'] for x in vlib.scenarios(es, vlib.tours(es))] if es else []
        for n, form in enumerate(PARTS):
            if not THOROUGH and (i + n) % 3: continue
            p = {s: 'api%d%s' % (i, form) + (s.lower() if form == 'sides' else '') for s in ('App', 'User')}
            if form == 'sides':
                c.generate(p['App'], [path], ['-g', 'application,types'])
                c.generate(p['User'], [path], ['-g', 'types,user'])
            else:
                for part, out in PARTS[form]:
                    c.generate(p['App'], [path], ['-g', part] if part else [], out=out)
            pkgs += sorted(set(p.values()))
            sc.append(dict(pkgs=p, api=v['api'], addrs=v['addrs'], walks=walks))
    return sc, pkgs


@check('C11')
def c11(c):
    sc, pkgs = apis(c, 4 if THOROUGH else 3)
    c.replay(c.build('wire', pkgs), 'api', sc, label='api')


# --- options ---------------------------------------------------------------------

def shapes(c):
    vals, _ = c.tlc('Shape', spec='SpecS', invariants=['Neutral', 'Shaped', 'Forced', 'EmissionS'], constants=dict(Full2=False, Emit=True, Some=not THOROUGH))
    vals = norm(vals)
    groups = {}
    for v in vals:
        o = v['d']['opts']
        groups.setdefault((o['keys'], o['naming'], o['force'], o['ignore']), []).append(v)
    sc, pkgs = [], []
    for ver in (2, 3):
        for n, (o, vs) in enumerate(sorted(groups.items())):
            pkg = 'shape%d_%d' % (ver, n)
            doc = docs.Doc(ver, pkg)
            vs.sort(key=lambda v: json.dumps(v['d'], sort_keys=True))
            new = [docs.shape(doc, v, i) for i, v in enumerate(vs)]
            if (n + ver) % 2: docs.aliased(doc.doc)
            args = []
            for flag, x in (('--convert-keys', o[0]), ('--naming-scheme', o[1])):
                if x != 'none' or n % 3: args += [flag, x]
            if o[2]: args += ['--force-pointers']
            if o[3]: args += ['--ignore-string-format']
            for s in new: s['options'] = args
            sc += new
            c.generate(pkg, [doc.write(c.path('docs', pkg + '.json'))], args)
            pkgs.append(pkg)
    return sc, pkgs


def imports(c):
    vals, _ = c.tlc('Shape', spec='SpecI', invariants=['EmissionI'], constants=dict(Full2=False, Emit=True, Some=True), name='ShapeImports')
    vals = norm(vals)
    sc, pkgs, cases = [], [], []
    for ver in (2, 3):
        for i, v in enumerate(vals):
            if ver == 2 and v['d']['message'] == 'trait': continue        # they have no payload
            pkg = 'imports%d_%d' % (ver, i)
            s, files = docs.imported(ver, pkg, v, i, c.path('docs', pkg))
            if not v['accept']:
                names = [os.path.basename(f) for f in files]
                cases.append(dict(scenario=v['d'], files=[(n, open(f).read()) for n, f in zip(names, files)], accept=False,
                                  args=sum((['-i', n] for n in names), []) + ['-p', 'conflict', '-o', 'out.gen.go']))
                continue
            if v['d']['other'] == 'same' and not THOROUGH and (i + ver) % 4: continue
            c.generate(pkg, files, relative=True)
            sc.append(s)
            pkgs.append(pkg)
    commands(c, 'conflicts', cases)
    return sc, pkgs


def surfaces(c, texts, hidden=()):
    """Describes generated files, in which the texts that are hidden count as the same one."""
    import subprocess
    h = c.harness()
    tool = c.path('cli', 'surface')
    if not os.path.exists(tool): c.run(['go', 'build', '-o', tool, './cmd/surface'], cwd=h)
    d = c.path('surface', 'x')
    names = []
    for i, t in enumerate(texts):
        names.append(os.path.join(os.path.dirname(d), '%d.go' % i))
        with open(names[-1], 'wb') as fd: fd.write(t)
    for i, t in enumerate(hidden): names[i] += '\t' + json.dumps(t)
    p = subprocess.run([tool], input='\n'.join(names).encode(), capture_output=True, check=True)
    return [json.loads(l) for l in p.stdout.splitlines()]


def part(name):
    """The part of the code that a declaration belongs to."""
    for p, n in (('application', 'App'), ('user', 'User')):
        if name.startswith((n + 'Controller', n + 'Subscriber', 'New' + n + 'Controller')): return p
    return 'types'


def command_lines(c, sample):
    vals, _ = c.tlc('Command', spec='Spec', invariants=['Sound', 'Emission'], constants=dict(Deviations=2, Emit=True))
    vals.sort(key=lambda v: json.dumps(v, sort_keys=True))
    few = [v for v in vals if v['n'] < 2]
    more = [v for v in vals if v['n'] == 2]
    if sample and len(more) > sample: more = c.rng.sample(more, sample)
    vals = few + more
    cases = [docs.command(v) for v in vals]
    key = lambda case: json.dumps(case['scenario']['output'], sort_keys=True) if case['accept'] else None
    outs = commands(c, 'commands', cases, key)
    # parts: what is generated separately is what is generated together
    by, whole = {}, {}
    for case, text in zip(cases, outs):
        if case['accept']: by.setdefault(key(case), (case['scenario']['output'][0], text))
    for (o, text), s in zip(by.values(), surfaces(c, [t for _, t in by.values()])):
        c.steps += 1
        why = None
        ident = json.dumps([o[k] for k in ('major', 'naming', 'keys', 'extra')])
        if s.get('error'): why = s['error']
        elif s['package'] != o['package']: why = 'the package is %r' % s['package']
        elif o['formatted'] and not s['formatted']: why = 'it is not formatted'
        else:
            s['decls'] = {n: t for n, t in s['decls'].items() if n[0].isupper()}   # what others are able to use
            for name, tokens in s['decls'].items():
                if part(name) not in o['parts']: why = '%s is not in the parts' % name
                elif whole.setdefault((ident, name), tokens) != tokens: why = '%s is not the same as with other parts' % name
            for p in o['parts']:
                if not any(part(n) == p for n in s['decls']): why = 'nothing of the part %s' % p
            o['names'] = {p: sorted(n for n in s['decls'] if part(n) == p) for p in o['parts']}
            for p in o['parts']:
                if not why and whole.setdefault((ident, '@', p), o['names'][p]) != o['names'][p]: why = 'not the same declarations in the part %s' % p
        if why: c.violation('generated code: ' + why, dict(options=o, code=text.decode()[:20000]))
    c.log('surfaces: %d' % len(by))


@check('C20')
def c20(c):
    command_lines(c, 0 if THOROUGH else 2500)
    sc, pkgs = shapes(c)
    isc, ipkgs = imports(c)
    w = c.build('wire', pkgs + ipkgs)
    c.replay(w, 'echo', sc, label='shapes')
    c.replay(w, 'echo', isc, label='imports')


# --- determinism -----------------------------------------------------------------

def corpus(c, n):
    """Documents of the other specifications: (files, arguments)."""
    got = {}
    real, c.generate = c.generate, lambda pkg, files, args=(), **kw: got.setdefault(pkg, ([(os.path.relpath(f, os.path.dirname(files[0])), json.load(open(f))) for f in files], list(args)))
    try:
        addresses(c, {'.'}, 2, 1)
        reply_addresses(c, 1)
        publications(c, 1, 2, 4)
        for name, k, size in (('Compose', dict(MaxDev=1), 40), ('Traits', dict(MaxDev=1), 30), ('Alternatives', dict(MaxDev=1), 30)):
            vals, _ = c.tlc(name, invariants=['Invs'], constraints=['Emission'], constants=dict(k, Emit=True))
            echoes(c, name.lower(), norm(vals), (3,) if name == 'Traits' else (2, 3), size)
        refs(c)
        objects(c, 25)
        validations(c)
        imports(c)
    finally:
        c.generate = real
    for name in ('rt2', 'rt3', 'lc2', 'lc3'): got[name] = [('%s.json' % name, load(name))], []
    for name in list(got):
        if name[:2] in ('rt', 'lc'):
            for form in FORMS:
                main, other = docs.refified(got[name][0][0][1], form, './other.json')
                got[name + form] = [('main.json', main)] + ([('other.json', other)] if other else []), []
    families = {}
    for name in sorted(got): families.setdefault(re.sub(r'(_\d+|\d_\d+)$', '', name), []).append(name)
    out = []
    for f in sorted(families): out += c.rng.sample(families[f], min(n, len(families[f])))
    return [(name, *got[name]) for name in out]


def presentations(c, n, pairs):
    vals, _ = c.tlc('Generation', spec='SpecP', invariants=['Same'], constraints=['EmissionP'], name='Presentations',
                    constants=dict(Deviations=2, Length=0, Resets=True, Emit=True))
    vals.sort(key=lambda v: json.dumps(v, sort_keys=True))
    few, more = [v['p'] for v in vals if v['n'] < 2], [v['p'] for v in vals if v['n'] == 2]
    few.sort(key=lambda p: p['run'] != 'first')
    cases = []
    for k, (name, files, args) in enumerate(corpus(c, n)):
        kept = dict(files=files)
        for p in few + c.rng.sample(more, pairs):
            if len(files) == 1 and (p['deporder'] != 'given' or p['depformat'] != 'json' or p['inputs'] == 'reversed'): continue
            x = docs.presentation(files, p, args + (['-f'] if k % 5 else []))
            cases.append(dict(x, scenario=dict(document=name, presentation=p), accept=True))
    # words that are not quoted are strings, for JSON and YAML 1.2
    for word in docs.WORDS:
        for place in ('key', 'value'):
            for form in ('json', 'yaml'):
                cases.append(dict(files=[('main.' + form, docs.plain_words(word, place, form))], args=['-i', 'main.' + form, '-p', 'pkg', '-o', 'out.gen.go'], accept=True,
                                  scenario=dict(document='word %s as %s' % (word, place), presentation=form), id='YAML %s: %s' % (place, word)))
    return commands(c, 'presentations', cases, lambda case: case['scenario']['document'])


def histories(c, length, sample):
    vals, _ = c.tlc('Generation', spec='SpecH', invariants=['Pure'], constraints=['EmissionH'], name='Histories',
                    constants=dict(Deviations=0, Length=length, Resets=True, Emit=True))
    vals = [v for v in vals if len(v['steps']) > 1]
    vals.sort(key=lambda v: json.dumps(v, sort_keys=True))
    long = [v for v in vals if len(v['steps']) > 2]
    if sample and len(long) > sample: long = c.rng.sample(long, sample)
    for name, major, version in (('two', 2, '2.6.0'), ('three', 3, '3.0.0')):
        docs.write(c.path('docs', name + '.json'), docs.command_doc(major, version))
    return [v for v in vals if len(v['steps']) == 2] + long


@check('C19')
def c19(c):
    sc = histories(c, 3, 0 if THOROUGH else 1000)
    c.replay(c.build('gen'), 'history', sc, label='histories', env=dict(c.env, GEN_DOCS=c.path('docs')))
    presentations(c, 8 if THOROUGH else 2, 60 if THOROUGH else 8)


# --- validation ------------------------------------------------------------------

VIAS = ['inline', 'ref', 'nested', 'chain', 'allOf', 'nestedref', 'header']


def validations(c, size=12, ops=14):
    vals, _ = c.tlc('Validation', invariants=['Satisfiable', 'Emission'], constants=dict(Wide=THOROUGH))
    vals.sort(key=lambda v: json.dumps(v['c'], sort_keys=True))
    sc, pkgs, n = [], [], len(VIAS)
    for ver in (2, 3):
        for forced in (False, True):
            items = []
            for i, v in enumerate(vals):
                for req in (True, False):
                    # every (case, required) goes through every way over the runs of the thorough tier, and two of the quick one
                    for k in range(n if THOROUGH else 2):
                        via = VIAS[(i + 3 * req + 2 * ver + forced + 4 * k + vlib.SEED) % n]
                        if via == 'header' and v['c']['kind'] != 'string': via = 'inline'
                        items.append((v, req, via))
            c.rng.shuffle(items)
            groups = [items[k:k + size] for k in range(0, len(items), size)]
            for k in range(0, len(groups), ops):
                pkg = 'valid%d%s_%d' % (ver, 'f' if forced else '', k // ops)
                doc = docs.Doc(ver, pkg)
                sc += [docs.validation(doc, g, forced) for g in groups[k:k + ops]]
                c.generate(pkg, [doc.write(c.path('docs', pkg + '.json'))], ['--force-pointers'] if forced else [])
                pkgs.append(pkg)
    return sc, pkgs


@check('C14')
def c14(c):
    sc, pkgs = validations(c)
    c.replay(c.build('wire', pkgs), 'validate', sc)


# --- versioning ------------------------------------------------------------------

VERSHAKE = ['pkg/extensions/broker.go', 'pkg/extensions/versioning/wrapper.go', 'pkg/extensions/versioning/broker_subscription.go',
            'pkg/extensions/versioning/version_subscription.go']
ALLKINDS = {'v1', 'v2', 'unknown', 'none', 'empty', 'other'}
VER = dict(Vers={'v1', 'v2'}, QCap=64, Emit=True)
VERS = [
    ('one', dict(VER, Chans={'A'}, Kinds=ALLKINDS, Default='', MaxOut=2, Flood=False, Slow=True, Fails=True), 'application-version'),
    ('default', dict(VER, Chans={'A'}, Kinds=ALLKINDS, Default='v1', MaxOut=2, Flood=False, Slow=False, Fails=False), 'x-version'),
    ('two', dict(VER, Chans={'A', 'B'}, Kinds={'v1', 'none'}, Default='v2', MaxOut=1, Flood=False, Slow=True, Fails=False), 'application-version'),
    ('flood', dict(VER, Chans={'A'}, Kinds={'v1', 'v2'}, Default='', MaxOut=1, Flood=True, Slow=False, Fails=False), 'application-version'),
]


def versioning(c, b, which):
    for name, consts, key in VERS:
        if name not in which:
            continue
        edges, _ = c.tlc('VersioningWalk', name=name, constants=consts, invariants=['Invs'], action_constraints=['Emission'],
                         view='view', workers=1)
        edges = vlib.canon(edges)
        c.replay(b, 'versioning', vlib.scenarios(edges, vlib.tours(edges), key=key, **{'def': consts['Default']}), label='versioning ' + name)


@check('C15')
def c15(c):
    b = c.build('ver')
    vals, _ = c.tlc('VersioningPublish', constants=dict(Emit=True), invariants=['Invs'], constraints=['Emission'])
    for v in vals:
        for k in ('headers', 'expect'):
            v[k] = v[k] or {}       # TLC writes the empty function as a sequence
    c.replay(b, 'verpublish', vals)
    versioning(c, b, ['one', 'default', 'two', 'flood'])


@check('C16')
def c16(c):
    c.tlc('Versioning', invariants=['Invs'], spec='FairSpec', properties=['Returns'],
          constants=dict(Chans={'A'}, Vers={'v1'}, Subs={1, 2}, Cancels={1, 2}, Msgs={1}, Gens={1, 2}))
    c.tlc('VersioningImpl', invariants=['Invs'], properties=['Refines'], timeout=800,
          constants=dict(Chans={'A'}, Vers={'v1', 'v2'}, Subs={1, 2}, Cancels={1, 2}, Msgs={1, 2} if THOROUGH else {1}, Gens={1, 2}, QCap=1))
    b = c.build('ver', race=True, shake=VERSHAKE)
    versioning(c, b, ['one', 'two', 'flood'])
    sc = []
    for i in range(400 if THOROUGH else 64):
        sc.append(dict(seed=vlib.SEED * 20011 + i, runs=100, keep=3, subs=[4, 3, 5][i % 3], msgs=[2, 3, 0, 3][i % 4], chans=1 + (i % 5 == 0),
                       double=i % 4 == 0, gosched=[0, 100, 300][i % 3], sleep=[20, 100, 50, 200][i % 4]))
    r = c.replay(b, 'verstress', sc, timeout=800)
    c.traces('VersioningTrace', r, dict(Chans={'A', 'B'}, Vers={'v1', 'v2'}, Subs=set(range(1, 7)), Cancels=set(range(1, 13)),
                                        Msgs=set(range(1, 6)), Gens=set(range(1, 7))))


# --- brokers -----------------------------------------------------------------------

NATS_KINDS = ['text', 'empty', 'one', 'headonly', 'cases', 'odd', 'big']
NATS_RAWS = ['bare', 'many', 'blank', 'mixed']


def nats_walks(c):
    sc, kinds, raws = [], NATS_KINDS, NATS_RAWS
    for name, k in (('kinds', dict(Slots={1}, QMax=2, Kinds=set(kinds), Raws=set(raws), Chans={'a'}, Ctls={1}, Opts={'plain', 'shared'}, MaxSubs=1)),
                    ('topology', dict(Slots={1, 2, 3} if THOROUGH else {1, 2}, QMax=1, Kinds={'text', 'one'} if THOROUGH else {'one'}, Raws={'many'}, Chans={'a.b', 'c'}, Ctls={1, 2},
                                      Opts={'plain', 'shared', 'mixed', 'distinct'}, MaxSubs=3 if THOROUGH else 2)),
                    ('groups', dict(Slots={1, 2, 3}, QMax=1, Kinds={'one'}, Raws={'many'}, Chans={'a'}, Ctls={1, 2}, Opts={'shared', 'distinct', 'plain', 'mixed'} if THOROUGH else {'shared', 'mixed'}, MaxSubs=3))):
        vals, _ = c.tlc('Nats', name='Nats.' + name, invariants=['Delivered', 'Bounded', 'Empty', 'Table'], action_constraints=['Emission'], view='view', constants=dict(k, Emit=True))
        table = {v['opt']: v for v in vals if 'contents' in v}
        edges = {}
        for v in vals:
            if 'contents' in v: continue
            init = not any(x['s'] != 'none' for x in v['s']['s']) and all(v['s']['a'])
            v['s'], v['t'] = ('' if init else json.dumps(v['s'], sort_keys=True)), json.dumps(v['t'], sort_keys=True)
            edges.setdefault(v['opt'], []).append(v)
        for opt, es in sorted(edges.items()):
            t = json.dumps(0)
            for e in es:
                x = json.loads(e['t'])
                if not any(y['s'] != 'none' for y in x['s']) and all(x['a']): e['t'] = ''
            es.sort(key=lambda e: e['s'] != '')
            es = vlib.canon(es)
            groups = table[opt]['groups']
            groups = [groups[str(i)] for i in sorted(k['Ctls'])] if isinstance(groups, dict) else groups
            sc += vlib.scenarios(es, vlib.tours(es, 60), contents=table[opt]['contents'], groups=groups, opt=opt)
    return sc


@check('C22')
def c22(c):
    sc = nats_walks(c)
    c.replay(c.build('nats'), 'nats', sc, label='nats', again=3)
    c.tlc('Delivery', invariants=['Owned', 'Alive'], constants=dict(Subs={1, 2}, Sids={1, 2}, Msgs={1, 2}, Chans={'a'}))
    st = [dict(seed=vlib.SEED * 30011 + i, runs=60 if THOROUGH else 25, keep=2 if i % 4 == 0 else 4, subs=[3, 2, 5][i % 3], msgs=[4, 8, 2][i % 3] if i % 4 else 2, pubs=i % 3,
               flood=i % 4 == 0, gosched=[0, 100, 300][i % 3], sleep=[20, 100, 0, 50][i % 4]) for i in range(160 if THOROUGH else 32)]
    b = c.build('nats', race=True, shake=['pkg/extensions/brokers/nats/nats.go', 'pkg/extensions/broker.go'], name='nats-race')
    r = c.replay(b, 'natsstress', st, label='natsstress')
    c.traces('DeliveryTrace', r, dict(Subs=set(range(1, 6)), Sids=set(range(1, 6)), Msgs=set(range(1, 200)), Chans={'a', 'b'}))


def nats_contents(c):
    """Messages, by what publishes them."""
    vals, _ = c.tlc('Nats', name='Nats.contents', invariants=['Table'], spec='Only', constants=dict(
        Slots={1}, QMax=1, Kinds=set(NATS_KINDS), Raws=set(NATS_RAWS), Chans={'a'}, Ctls={1}, Opts={'plain'}, MaxSubs=1, Emit=True))
    return dict(contents=[v for v in vals if 'contents' in v][0]['contents'], kinds=dict(controller=NATS_KINDS, other=NATS_RAWS))


def js_walks(c):
    vals, _ = c.tlc('Jetstream', invariants=['Kept', 'Given'], properties=['Acked'], action_constraints=['Emission'], view='view',
                    constants=dict(Slots={1, 2, 3}, Msgs={1, 2, 3} if THOROUGH else {1, 2}, Sets={'plain', 'wild', 'overlap', 'all'}, Emit=True))
    edges, sc = {}, []
    for v in vals:
        for k in 'st':
            x = v[k]
            start = all(y == 'none' for y in x['s']) and all(y['s'] == 'none' for y in x['m']) and not x['p']
            v[k] = '' if start else json.dumps(x, sort_keys=True)
        edges.setdefault(v.pop('opt'), []).append(v)
    extra = nats_contents(c)
    for opt, es in sorted(edges.items()):
        es.sort(key=lambda e: e['s'] != '')
        es = vlib.canon(es)
        sc += vlib.scenarios(es, vlib.tours(es, 60), **extra)
    return sc


@check('C21')
def c21(c):
    vals, _ = c.tlc('Subjects', invariants=['Same', 'Literal', 'Report'], constants=dict(Words={'a', 'A', 'aa'}, MaxLen=4 if THOROUGH else 3))
    b = c.build('nats')
    c.replay(b, 'match', vals)
    vals, _ = c.tlc('StreamSetup', invariants=['Complete', 'Report'])
    c.replay(b, 'setup', [dict(v, reverse=r) for v in vals for r in (False, True)])
    c.replay(b, 'jetstream', js_walks(c), again=3)
    c.tlc('Stream', invariants=['Once', 'Wanted', 'Own'], constraints=['Bound'], constants=dict(
        Subs={1, 2}, Msgs={1, 2} if THOROUGH else {1}, Inboxes={1}, Chans={'a'}, Subjects={'a', 'b'} if THOROUGH else {'a'}))
    st = [dict(seed=vlib.SEED * 40009 + i, runs=60 if THOROUGH else 25, keep=1 if i % 4 == 0 else 4, subs=[3, 2, 5][i % 3], msgs=[6, 10, 3][i % 3],
               flood=i % 4 == 0, gosched=[0, 100, 300][i % 3], sleep=[20, 100, 0, 50][i % 4]) for i in range(160 if THOROUGH else 32)]
    b = c.build('nats', race=True, shake=['pkg/extensions/brokers/natsjetstream/natsjetstream.go', 'pkg/extensions/broker.go'], name='nats-race')
    r = c.replay(b, 'jsstress', st, label='jsstress')
    c.traces('StreamTrace', r, dict(Subs=set(range(1, 6)), Msgs=set(range(1, 100)), Inboxes=set(range(1, 9)), Chans={'a', 'b', 'c.*', 'd.>'}, Subjects={'a', 'b', 'c', 'c.x', 'c.y', 'd.x.y', 'd.z'}))


def kafka_graph(c, opt, chans, maxlog, qmax):
    """The transitions of one configuration, and the messages."""
    vals, _ = c.tlc('Kafka', name='Kafka.%s.%d.%d' % (opt, len(chans), maxlog), invariants=['Ordered', 'Table'], properties=['Commits'], action_constraints=['Emission'],
                    view='view', constants=dict(Slots={1, 2}, Chans=set(chans), Ctls={1, 2}, Opts={opt}, MaxLog=maxlog, QMax=qmax, Emit=True))
    extra = [v for v in vals if 'contents' in v][0]
    es = [v for v in vals if 's' in v]
    for v in es:
        for k in 'st':
            x = v[k]
            start = all(y < 0 for y in x['l'].values()) and all(y['s'] == 'none' for y in x['s'])
            v[k] = '' if start else json.dumps(x, sort_keys=True)
    es.sort(key=lambda e: e['s'] != '')
    return vlib.canon(es), dict(contents=extra['contents'], ctls=extra['ctls'], opt=opt)


@check('C23')
def c23(c):
    b = c.build('kafka')
    vals, _ = c.tlc('KafkaTopic', invariants=['Exactly', 'Same', 'Report'], properties=['Ends'], constants=dict(MaxHidden=3 if THOROUGH else 2, Emit=True))
    c.replay(b, 'topic', vals, shards=96, again=3)
    vals, _ = c.tlc('KafkaOptions', invariants=['Alone'], action_constraints=['Emission'], constants=dict(Emit=True))
    runs = {}
    for v in vals:
        runs.setdefault(json.dumps(v['who']), []).append(v)
    sc = []
    for i, (k, l) in enumerate(sorted(runs.items())):
        steps = {v['i']: v for v in l}
        if len(steps) == 6:
            sc.append(dict(who=json.loads(k), opts=l[0]['opts'], salt=i, steps=[dict(a=steps[j]['a'], o=steps[j]['o']) for j in range(1, 7)]))
    c.replay(b, 'options', sc, shards=96, again=3)
    sc = []
    for j, opt in enumerate(('alone', 'manual', 'shared', 'mixed', 'auto')):
        es, extra = kafka_graph(c, opt, 'a', 1, 2)
        walks = vlib.tours(es, 40)
        es2, _ = kafka_graph(c, opt, 'a', 2, 2)
        walks2 = vlib.random_walks(es2, 120 if THOROUGH else 15, 30, seed=vlib.SEED * 7 + j)
        sc += vlib.scenarios(es, walks, **extra) + vlib.scenarios(es2, walks2, **extra)
        if opt in ('alone', 'manual'):
            # blocks of messages: more than what queues hold
            walks3 = vlib.random_walks(es2, 120 if THOROUGH else 20, 30, seed=vlib.SEED * 13 + j)
            sc += [dict(x, block=50) for x in vlib.scenarios(es2, walks3, **extra)]
        if opt in ('shared', 'alone'):
            es3, _ = kafka_graph(c, opt, 'ab', 1, 2)
            sc += vlib.scenarios(es3, vlib.random_walks(es3, 200 if THOROUGH else 30, 25, seed=vlib.SEED * 11 + j), **extra)
    sc = [dict(x, salt=i) for i, x in enumerate(sc)]
    c.replay(b, 'kafka', sc, shards=96, again=3)


# --- remarks -------------------------------------------------------------------------

@check('C25')
def c25(c):
    cases, bare = [], {}
    for ver in (2, 3):
        vals, _ = c.tlc('Remarks', name='Remarks%d' % ver, invariants=['Invs'], constraints=['Emission'], constants=dict(Version=ver, MaxSaid=1, Emit=True))
        vals = sorted((sorted(map(list, v['said'])) for v in vals), key=lambda l: (len(l) > 1, l))
        singles = [l[0] for l in vals if len(l) == 1]
        if not THOROUGH:
            # each text for a third of the objects, everything else for all of them
            vals = [l for i, l in enumerate(vals) if len(l) != 1 or l[0][2] not in ('title', 'summary') or i % 3 == 0]
        # several remarks
        for _ in range(400 if THOROUGH else 100):
            vals.append(c.rng.sample(singles, c.rng.randint(2, 12)))
        for said in vals:
            if len({(x[0], x[2]) for x in said}) < len(said): continue
            d = docs.remarked(ver, said)
            form = len(cases) % 3 == 2
            cases.append(dict(files=[('main.yaml', docs.yaml(d)) if form else ('main.json', json.dumps(d))], accept=True, scenario=dict(version=ver, said=said), before=False,
                              args=['-i', 'main.yaml' if form else 'main.json', '-p', 'pkg', '-o', 'out.gen.go']))
        bare[ver] = docs.remarked(ver, [])
        p, _ = c.generate('remarks%d' % ver, [docs.write(c.path('docs', 'remarks%d.json' % ver), bare[ver])])
    c.build('wire', ['remarks2', 'remarks3'])
    texts = commands(c, 'remarks', cases)
    first = {}
    versions = [docs.versionsaid(case['scenario']['said']) for case in cases]
    for case, v, s in zip(cases, versions, surfaces(c, texts, versions)):
        ver = case['scenario']['version']
        what = {k: s.get(k) for k in ('error', 'package', 'formatted')}, s['decls']
        if (s['texts'] or {}).get('AsyncAPIVersion') != v: c.violation('the version of the document is not the constant', dict(scenario=case['scenario'], document=case['files'], expected=v, observed=s['texts']))
        if not case['scenario']['said']: first[ver] = what
        if what != first[ver]:
            diff = sorted(k for k in set(what[1]) | set(first[ver][1]) if what[1].get(k) != first[ver][1].get(k))
            c.violation('a remark changes the code', dict(scenario=case['scenario'], document=case['files'], declarations=diff, expected=first[ver][0], observed=what[0]))


if __name__ == '__main__':
    pid = sys.argv[1]
    f, level = CHECKS[pid]
    sys.exit(vlib.main(pid, f, level))
