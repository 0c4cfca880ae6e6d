"""Documents made from the values given by the specifications."""
import base64, json, os, random, re

STR = {'type': 'string'}


def obj(props, required=()):
    s = {'type': 'object', 'properties': props}
    if required:
        s['required'] = list(required)
    return s


def ref(r):
    return {'$ref': r}


def write(path, doc):
    with open(path, 'w') as fd:
        json.dump(doc, fd, indent=1)
    return path


# --- Publish.tla: messages with a correlation ID somewhere ------------------------

LEVELS = ['meta', 'sub-info', 'corrKey']


def corr_message(i, shape, comps):
    """The definition of the message of a shape; what it refers to goes in the components."""
    name = 'Msg%d' % i
    schemas, messages, traits = comps['schemas'], comps['messages'], comps['messageTraits']
    headers = obj({'note': STR})
    payload = obj({'text': STR, 'number': {'type': 'integer'}})
    m = {}
    req, via = shape['req'], shape['via']
    if shape['place'] == 'header':
        key = ['correlationId', 'x-corr-id', 'reply_id'][i % 3]
        headers['properties'][key] = STR
        if req[0]: headers['required'] = [key]
        m['correlationId'] = {'location': '$message.header#/' + key}
        shape['path'] = [key]
    elif shape['place'] == 'payload':
        path = LEVELS[len(LEVELS) - len(req):]
        shape['path'] = path
        inner = STR
        for d in range(len(req) - 1, -1, -1):
            if d == 0:
                payload['properties'][path[0]] = inner
                if req[0]: payload['required'] = [path[0]]
                break
            inner = obj({path[d]: inner, 'other%d' % d: STR}, [path[d]] if req[d] else [])
            if via == 'nested':
                schemas['%sLevel%d' % (name, d)] = inner
                inner = ref('#/components/schemas/%sLevel%d' % (name, d))
            elif via == 'allof':
                schemas['%sLevel%d' % (name, d)] = inner
                inner = {'type': 'object', 'allOf': [ref('#/components/schemas/%sLevel%d' % (name, d)), obj({'more%d' % d: STR})]}
        m['correlationId'] = {'location': '$message.payload#/' + '/'.join(path)}
    m['headers'], m['payload'] = headers, payload
    if via == 'schema':
        schemas[name + 'Headers'], schemas[name + 'Payload'] = headers, payload
        m['headers'], m['payload'] = ref('#/components/schemas/%sHeaders' % name), ref('#/components/schemas/%sPayload' % name)
    elif via == 'nested':
        schemas[name + 'Payload'] = payload
        m['payload'] = ref('#/components/schemas/%sPayload' % name)
    elif via == 'allof':
        schemas[name + 'Base'] = payload
        m['payload'] = {'type': 'object', 'allOf': [obj({'extra': STR}), ref('#/components/schemas/%sBase' % name)]}
    elif via == 'trait':
        traits[name + 'Trait'] = {k: m.pop(k) for k in (['headers', 'correlationId'] if shape['place'] == 'header' else ['correlationId'])}
        m['traits'] = [ref('#/components/messageTraits/%sTrait' % name)]
    messages[name] = m
    return name


def corr_doc(ver, shapes):
    comps = dict(schemas={}, messages={}, messageTraits={})
    chans, ops = {}, {}
    for i, s in enumerate(shapes):
        n = corr_message(i, s, comps)
        m = ref('#/components/messages/' + n)
        s.update(i=i, msg=n + 'Message')
        reply = s['place'] != 'none'
        if ver == 3:
            for side, action in (('p', 'receive'), ('s', 'send')):
                chans['%s%d' % (side, i)] = {'address': '%s.%d' % (side, i), 'messages': {n: m}}
                ops['%sop%d' % (side, i)] = {'action': action, 'channel': ref('#/channels/%s%d' % (side, i))}
                if reply:
                    chans['%sr%d' % (side, i)] = {'address': '%sr.%d' % (side, i), 'messages': {n: m}}
                    ops['%srop%d' % (side, i)] = {'action': action, 'channel': ref('#/channels/%s%d' % (side, i)),
                                                  'reply': {'channel': ref('#/channels/%sr%d' % (side, i))}}
        else:
            chans['p.%d' % i] = {'publish': {'message': m}}
            chans['s.%d' % i] = {'subscribe': {'message': m}}
    comps = {k: v for k, v in comps.items() if v}
    d = {'asyncapi': '3.0.0' if ver == 3 else '2.6.0', 'info': {'title': 'Correlation', 'version': '%d.0.1' % ver},
         'channels': chans, 'components': comps}
    if ver == 3:
        d['operations'] = ops
    return d


# --- Address.tla -----------------------------------------------------------------

def address_doc(ver, templates):
    """A channel per template; returns what the harness has to know of each."""
    chans, ops, info = {}, {}, {}
    msg = {'headers': obj({'corr': STR}), 'payload': obj({'text': STR})}
    if ver == 2:
        msg['correlationId'] = {'location': '$message.header#/corr'}
    m = ref('#/components/messages/Note')
    for i, t in enumerate(sorted(templates)):
        names = [p for p in ('a', 'b-c') if '{%s}' % p in t]
        x = info[t] = dict(i=i, pre='')
        if ver == 3:
            x['recv'] = 'App' if i % 2 else 'User'
            ch = chans['k%03d' % i] = {'address': t, 'messages': {'Note': m}}
            if names:
                ch['parameters'] = {p: {'description': 'Parameter ' + p} for p in names}
            op = ops['op%d' % i] = {'action': 'receive' if i % 2 else 'send', 'channel': ref('#/channels/k%03d' % i)}
            x['request'] = i % 3 == 0
            if x['request']:
                chans['r%03d' % i] = {'address': 'r.%d' % i, 'messages': {'Note': m}}
                op['reply'] = {'channel': ref('#/channels/r%03d' % i)}
        else:
            x['recv'] = 'App' if i % 2 else 'User'
            x['pre'] = 'k%03dq' % i
            x['request'] = not i % 2
            ch = chans[x['pre'] + t] = {'publish' if i % 2 else 'subscribe': {'operationId': 'op%d' % i, 'message': m}}
            if names:
                ch['parameters'] = {p: {'schema': {'type': 'string' if p == 'a' else 'integer'}} for p in names}
    d = {'asyncapi': '3.0.0' if ver == 3 else '2.4.0', 'info': {'title': 'Addresses', 'version': '1.0.0'}, 'channels': chans,
         'components': {'messages': {'Note': msg}}}
    if ver == 3:
        d['operations'] = ops
    return d, info


def reply_address_doc(shapes):
    """Version 3 operations whose reply address is in the request."""
    comps = dict(schemas={}, messages={}, messageTraits={})
    chans, ops = {}, {}
    for i, s in enumerate(shapes):
        n = corr_message(i, s, comps)
        # the same description as for correlation IDs, for the address of the reply
        m = comps['messages'][n]
        for x in [m] + list(comps['messageTraits'].values()):
            loc = x.pop('correlationId', None)
            if loc: s['location'] = loc['location']
        s.update(i=i, msg=n + 'Message')
        comps['messages'][n + 'Reply'] = {'payload': obj({'text': STR})}
        for side, action in (('p', 'receive'), ('s', 'send')):
            chans['%s%d' % (side, i)] = {'address': '%s.%d' % (side, i), 'messages': {n: ref('#/components/messages/' + n)}}
            chans['%sr%d' % (side, i)] = {'messages': {n + 'Reply': ref('#/components/messages/%sReply' % n)}}
            if i % 2: chans['%sr%d' % (side, i)]['address'] = None
            ops['%sop%d' % (side, i)] = {'action': action, 'channel': ref('#/channels/%s%d' % (side, i)),
                                         'reply': {'address': {'location': s['location']}, 'channel': ref('#/channels/%sr%d' % (side, i))}}
    return {'asyncapi': '3.0.0', 'info': {'title': 'Reply addresses', 'version': '1.0.0'}, 'channels': chans, 'operations': ops,
            'components': {k: v for k, v in comps.items() if v}}


# --- Schema.tla: schemas, values and messages ---------------------------------------

LEAVES = {'string': STR, 'integer': {'type': 'integer'}, 'int32': {'type': 'integer', 'format': 'int32'}, 'number': {'type': 'number'},
          'float': {'type': 'number', 'format': 'float'}, 'boolean': {'type': 'boolean'},
          'date-time': {'type': 'string', 'format': 'date-time'}, 'date': {'type': 'string', 'format': 'date'}, 'any': {},
          'uint8': {'type': 'integer', 'x-go-type': 'uint8'},
          'addr': {'type': 'string', 'x-go-type': 'netip.Addr', 'x-go-type-import': {'path': 'net/netip'}},
          'alias': {'type': 'string', 'x-go-type': 'ipx.Addr', 'x-go-type-import': {'path': 'net/netip', 'name': 'ipx'}},
          'raw': {'x-go-type': 'json.RawMessage', 'x-go-type-import': {'path': 'encoding/json'}},
          'rawobj': {'type': 'object', 'properties': {'hidden': STR}, 'x-go-type': 'json.RawMessage', 'x-go-type-import': {'path': 'encoding/json'}},
          'bytes': {'type': 'string', 'x-go-type': '[]byte'}}


def text(s):
    return s.replace('~', 'é')      # TLC only reads ASCII


def schema(s, names, typed=True):
    """The definition of a schema; names gives the reference of each name of the environment."""
    k = s['k']
    if k in ('true', 'false'):
        return k == 'true'
    if k in LEAVES:
        d = dict(LEAVES[k])
    elif k == 'ref':
        return ref(names[s['to']])
    elif k == 'array':
        d = {'type': 'array', 'items': schema(s['items'], names, typed)}
    else:
        d = {'type': 'object'}
        comp = {w: [schema(x, names, typed) for x in s[a]] for w, a in (('allOf', 'all'), ('anyOf', 'any'), ('oneOf', 'one')) if s.get(a)}
        if comp and not typed:
            del d['type']
        d.update(comp)
        if s['props']:
            d['properties'] = {text(p): schema(x, names, typed) for p, x in s['props'].items()}
        if s['req']:
            d['required'] = sorted(text(r) for r in s['req'])
        if s['add']['k'] != 'none':
            d['additionalProperties'] = schema(s['add'], names, typed)
    d.update(s.get('more') or {})
    return d


def value(v, conv=lambda k: k):
    """The JSON text of a value."""
    if v['t'] == 'leaf':
        return text(v['v'])
    if v['t'] == 'arr':
        return '[' + ','.join(value(x) for x in v['s']) + ']'
    return '{' + ','.join(json.dumps(text(k)) + ':' + value(x) for k, x in (v['m'] or {}).items()) + '}'


def header_values(v):
    """The headers of a message, from an object."""
    out = {}
    for k, x in (v['m'] or {}).items():
        t = value(x)
        out[text(k)] = json.loads(t) if t.startswith('"') else t
    return out


def probe(p, raw=False):
    b = lambda s: base64.b64encode(s.encode()).decode()
    pay = lambda v: b(json.loads(value(v)) if raw else value(v))
    d = {'h': header_values(p['h']), 'p': pay(p['p']), 'err': not p['ok']}
    if p['ok']:
        d.update(eh=header_values(p['eh']), ep=pay(p['ep']))
    return d


def message(m, names, typed=True):
    if m.get('k') == 'msgref': return ref(names[m['to']])
    d = {}
    if m['headers']['k'] != 'none': d['headers'] = schema(m['headers'], names, typed)
    if m['payload']['k'] != 'none': d['payload'] = schema(m['payload'], names, typed)
    if m.get('traits'): d['traits'] = [trait(t, names, typed) for t in m['traits']]
    if m.get('corr'): d['correlationId'] = {'location': '$message.header#/' + text(m['corr'])}
    if m.get('one'): d['oneOf'] = [message(x, names, typed) for x in m['one']]
    return d


def trait(t, names, typed=True):
    return ref(names[t['to']]) if t['k'] == 'traitref' else message(t, names, typed)


class Doc:
    """A document with one operation per message."""
    def __init__(self, ver, pkg, version=None):
        self.ver, self.pkg, self.i = ver, pkg, 0
        self.doc = {'asyncapi': version or ('3.0.0' if ver == 3 else '2.6.0'), 'info': {'title': pkg, 'version': '1.0.0'}, 'channels': {}, 'components': {}}
        if ver == 3: self.doc['operations'] = {}

    def comp(self, kind, name, d):
        self.doc['components'].setdefault(kind, {})[name] = d
        return '#/components/%s/%s' % (kind, name)

    def op(self, msg, name=None, params=None, addr=None, message=None):
        """Adds an operation on a message (definition), returns what the harness has to know."""
        self.i += 1
        i, app = self.i, self.i % 2 == 1
        name = name or 'Msg%d' % i
        if message is None:
            message = ref(self.comp('messages', name, msg))
        addr = addr or 'chan.%d' % i
        if self.ver == 3:
            ch = self.doc['channels']['chan%d' % i] = {'address': addr, 'messages': {name: message}}
            self.doc['operations']['op%d' % i] = {'action': 'receive' if app else 'send', 'channel': ref('#/channels/chan%d' % i)}
            s = dict(sub='SubscribeToOp%dOperation' % i, send='Send%sOp%dOperation' % ('To' if app else 'As', i))
        else:
            ch = self.doc['channels'][addr] = {'publish' if app else 'subscribe': {'operationId': 'op%d' % i, 'message': message}}
            s = dict(sub='SubscribeOp%d' % i, send='PublishOp%d' % i)
        if params: ch['parameters'] = params
        return dict(s, pkg=self.pkg, recv='App' if app else 'User', addr=addr)

    def write(self, path):
        return write(path, self.doc)


def echo(doc, m, kinds, probes, names, typed=True):
    """Adds a message to the document, returns its scenario."""
    raw = kinds['payload'] in ('string', 'date-time')
    d = message(m, names, typed)
    inline = dict(message=d) if 'one' in m or set(d) == {'$ref'} else {}
    return dict(doc.op(d, **inline), raw=raw, json=[text(h) for h in kinds['json']],
                probes=[probe(p, raw) for p in probes])


def envs(doc, env, i, typed=True, kinds=None):
    """Adds the definitions of an environment, their names being followed by i; returns the references."""
    kind = lambda s: 'messageTraits' if s['k'].startswith('trait') else 'messages' if s['k'] in ('message', 'msgref') else 'schemas'
    names = {n: '#/components/%s/%s%d' % (kind(s), n, i) for n, s in env.items()}
    for n, s in env.items():
        write = {'messageTraits': trait, 'messages': message, 'schemas': schema}[kind(s)]
        doc.comp(kind(s), '%s%d' % (n, i), write(s, names, typed))
    return names


# --- Codec.tla: messages on the wire ----------------------------------------------------

def wire_bytes(w):
    return text(w['s']).encode() if w['t'] == 'text' else bytes(w['b'])


def codec(doc, v, i):
    """A message of Codec.tla."""
    d, b64 = v['d'], lambda w: base64.b64encode(wire_bytes(w)).decode()
    names = envs(doc, {n: v['env'][n] for n in used(v['env'], [d['payload'], d['headers']])}, i)
    h = lambda hs: {text(k): b64(w) for k, w in (hs or {}).items()}
    ps = []
    for p in v['probes']:
        x = dict(hb=h(p['h']), p=b64(p['p']), err=not p['ok'], fails=p['fails'])
        if p['ok'] and not p['fails']: x.update(ehb=h(p['eh']), ep=b64(p['ep']), val=p['val'])
        ps.append(x)
    return dict(doc.op(message(d, names)), raw=v['payload'] in ('string', 'date', 'date-time', 'integer', 'int32', 'number', 'float'),
                json=[text(x) for x in v['json']], probes=ps)


# --- Api.tla: operations of both sides --------------------------------------------------

OPNAMES = ['one', 'two-parts', 'third_op', 'four']
MSGNAMES = dict(A='MsgA', B='msg-b', K='msg_k')


def api_message(m):
    d = {'headers': obj({'extra': STR}), 'payload': obj({m.lower(): STR})}
    if m == 'K':
        d = {'headers': obj({'corr': STR}), 'payload': obj({'k': STR}), 'correlationId': {'location': '$message.header#/corr'}}
    return d


def api_doc(v):
    d, ver = v['d'], v['d']['ver']
    doc = {'asyncapi': '3.0.0' if ver == 3 else '2.6.0', 'info': {'title': 'Api', 'version': '1.0.0'}, 'channels': {},
           'components': {'messages': {n: api_message(m) for m, n in MSGNAMES.items()}}}
    param = lambda t: {'parameters': {'id': {'description': 'The id'} if ver == 3 else {'schema': STR}}} if '{id}' in t else {}
    if ver == 2:
        for i, ch in enumerate(d['chans']):
            t, x = v['templates'][str(i + 1)], {}
            for j, (kind, o) in enumerate((('publish', ch['pub']), ('subscribe', ch['sub']))):
                if o['id'] == 'none': continue
                x[kind] = {'message': api_message(o['msg']) if d['inline'] else ref('#/components/messages/' + MSGNAMES[o['msg']])}
                if o['id'] == 'yes': x[kind]['operationId'] = OPNAMES[2 * i + j]
            if x: doc['channels'][t] = dict(x, **param(t))
        return doc
    for c, t in v['templates'].items():
        doc['channels'][c] = dict(address=t, messages={MSGNAMES[m]: ref('#/components/messages/' + MSGNAMES[m]) for m in v['msgs'][c]}, **param(t))
    doc['operations'] = {}

    def messages(c, m):     # operations name their messages if they want, or if they have to
        if not d['expl'] and len(v['msgs'][c]) == 1: return {}
        return {'messages': [ref('#/channels/%s/messages/%s' % (c, MSGNAMES[m]))]}
    for i, o in enumerate(d['ops']):
        if o['act'] == 'none': continue
        x = doc['operations'][OPNAMES[i]] = dict(action=o['act'], channel=ref('#/channels/' + o['ch']), **messages(o['ch'], o['msg']))
        if o['rep'] != 'none':
            r = o['ch'] if d['place'] == 'own' else d['place']
            x['reply'] = dict(channel=ref('#/channels/' + r), **messages(r, o['rep']))
    return doc


# --- Refs.tla: every part inline, referenced, or in another file -----------------------

KINDS17 = dict(op='operations', channel='channels', param='parameters', message='messages', corr='correlationIds', trait='messageTraits',
               reply='replies', address='replyAddresses')


def token(name):
    """A name as a token of a JSON pointer."""
    return name.replace('~', '~0').replace('/', '~1')


class RefDocs:
    """A document, and the files it depends on, which have the same name in two directories."""
    def __init__(self, ver, pkg):
        self.ver, self.pkg, self.i = ver, pkg, 0
        head = lambda t: {'asyncapi': '3.0.0' if ver == 3 else '2.5.0', 'info': {'title': t, 'version': '1.0.0'}, 'channels': {}, 'components': {}}
        self.docs = {'': head(pkg), 'Dep': head(pkg + ' dependency'), 'Sec': head(pkg + ' other dependency')}
        self.main = self.docs['']
        if ver == 3:
            self.main['operations'] = {}
        self.files = {'Dep': pkg + '_dep.json', 'Sec': 'second/' + pkg + '_dep.json'}

    def ref(self, name, kind, here):
        """Reference to a component, from a file."""
        f = self.where(name)
        assert not here or f == here, (name, here)
        file = '' if f == here else ('./' if self.i % 2 else '') + self.files[f]
        form = self.form(name) if kind == 'schemas' else ''
        if form in ('inpayload', 'inheaders'): kind = 'messages'
        return ref('%s#/components/%s/%s%d%s' % (file, kind, name, self.i, {
            'inprop': '/properties/' + token(self.inside()), 'depprop': '/properties/' + token(self.inside()), 'initems': '/items', 'inadd': '/additionalProperties', 'inpayload': '/payload', 'inheaders': '/headers'}.get(form, '')))

    def inside(self):
        return ('inside', 'in/si~de', 'in~1')[self.i % 3]

    def form(self, name):
        """The form of the part that a component is the definition of."""
        return self.forms.get(re.match('(Dep|Sec)?N([a-z]+)[0-9]$', name).group(2), 'inline')

    def where(self, name):
        """The file of a component."""
        return name[:3] if name[:4] in ('DepN', 'SecN') else ''

    def put(self, kind, name, d):
        form = self.form(name) if kind == 'schemas' else ''
        if form in ('inprop', 'depprop'): d = obj({'other': {'type': 'integer'}, self.inside(): d}, ['other'])
        elif form == 'initems': d = {'type': 'array', 'items': d}
        elif form == 'inadd': d = dict(obj({'other': {'type': 'integer'}}), additionalProperties=d)
        elif form in ('inpayload', 'inheaders'): kind, d = 'messages', {'payload': d} if form == 'inpayload' else {'payload': STR, 'headers': d}
        self.docs[self.where(name)]['components'].setdefault(kind, {})['%s%d' % (name, self.i)] = d

    def place(self, chain, slot, here, make):
        """What to write for a part; its definition is made by a function that is given the file where it is."""
        names, kind = chain[slot], KINDS17[slot]
        if not names:
            return make(here)
        for a, b in zip(names, names[1:]):
            self.put(kind, a, self.ref(b, kind, self.where(a)))
        self.put(kind, names[-1], make(self.where(names[-1])))
        return self.ref(names[0], kind, here)

    def add(self, v):
        self.i += 1
        i, app, chain, ver = self.i, self.i % 2 == 1, v['chain'], self.ver
        self.forms = v['f']
        for n, s in (v['env'] or {}).items():
            self.put('schemas', n, self.schema(s, self.where(n)))
        m, name = v['msg'], 'Msg%d' % i
        params = lambda here: {'id': self.place(chain, 'param', here, lambda h: {'description': 'The id'} if ver == 3 else {'schema': {'type': 'integer'}})}

        def message(here):
            d = {'headers': self.schema(m['headers'], here), 'payload': self.schema(m['payload'], here),
                 'correlationId': self.place(chain, 'corr', here, lambda h: {'location': '$message.header#/' + token(m['corr'])})}
            if m['traits']:
                d['traits'] = [self.place(chain, 'trait', here, lambda h: {'headers': self.schema(m['traits'][0]['headers'], h)})]
            return d

        def themessage(here):
            if v['f']['message'] == 'channel':
                ch = ('other%d', 'other/%d/~', 'other~1%d')[i % 3] % i
                self.docs[here]['channels'][ch] = {'address': 'other.%d' % i, 'messages': {name: message(here)}}
                return ref('#/channels/%s/messages/%s' % (token(ch), name))
            return self.place(chain, 'message', here, message)

        addr = 'chan.%d.{id}' % i
        if ver == 2:
            ch = self.main['channels'][addr] = {'publish' if app else 'subscribe': {'operationId': 'op%d' % i, 'message': self.place(chain, 'message', '', message)},
                                                'parameters': params('')}
            s = dict(sub='SubscribeOp%d' % i, send='PublishOp%d' % i)
        else:
            def op(here):
                ch = ('chan%d', 'chan/%d~', 'chan~0%d')[i % 3] % i
                self.docs[here]['channels'][ch] = self.place(
                    chain, 'channel', here, lambda h: {'address': addr, 'messages': {name: themessage(h)}, 'parameters': params(h)})
                return {'action': 'receive' if app else 'send', 'channel': ref('#/channels/' + token(ch))}
            self.main['operations']['op%d' % i] = self.place(chain, 'op', '', op)
            s = dict(sub='SubscribeToOp%dOperation' % i, send='Send%sOp%dOperation' % ('To' if app else 'As', i))
        return dict(s, pkg=self.pkg, recv='App' if app else 'User', addr='chan.%d.7' % i, params={'Id': '7'})

    def schema(self, s, here):
        class N(dict):
            def __missing__(_, n):
                return self.ref(n, 'schemas', here)['$ref']
        return schema(s, N())

    def write(self, d):
        os.makedirs(os.path.join(d, 'second'), exist_ok=True)
        return [write(os.path.join(d, self.pkg + '.json'), self.main)] + [write(os.path.join(d, f), self.docs[n]) for n, f in sorted(self.files.items())]


# --- parts replaced by references ---------------------------------------------------

def refified(doc, form, file):
    """The same document where every part that can be is a reference: to the components, to the components through another
    reference (for half of them), or to the components of another file. Returns the documents to write."""
    doc = json.loads(json.dumps(doc))
    v3 = doc['asyncapi'].startswith('3')
    head = {k: doc[k] for k in ('asyncapi', 'info')}
    comps, n = doc.setdefault('components', {}), [0]
    dep = form == 'dep'
    other = dict(head, channels={}, components=comps) if dep else doc

    def hoist(kind, name, d, outside=False, same=False):
        """Defines a component, and gives what to write instead; outside: from the main document."""
        if d is None or set(d) == {'$ref'}:
            return d
        n[0] += 1
        name = name if same else '%s%d' % (name, n[0])
        c = comps.setdefault(kind, {})
        assert name not in c, name
        c[name] = d
        if form == 'chain' and n[0] % 2:
            c['Chain%d' % n[0]] = ref('#/components/%s/%s' % (kind, name))
            name = 'Chain%d' % n[0]
        return ref('%s#/components/%s/%s' % (file if outside and dep else '', kind, name))

    def message(m):
        if set(m) == {'$ref'}: return
        for k in ('headers', 'payload'):
            if k in m: m[k] = hoist('schemas', 'Hoisted', props(m[k]))
        if 'correlationId' in m: m['correlationId'] = hoist('correlationIds', 'Hoisted', m['correlationId'])
        if v3: m['traits'] = [hoist('messageTraits', 'Hoisted', trait(t)) for t in m.get('traits', [])]
        for k in ('traits',):
            if not m.get(k): m.pop(k, None)

    def trait(t):
        for k in ('headers', 'payload'):
            if k in t: t[k] = hoist('schemas', 'Hoisted', props(t[k]))
        if 'correlationId' in t: t['correlationId'] = hoist('correlationIds', 'Hoisted', t['correlationId'])
        return t

    def props(s):
        for k, p in s.get('properties', {}).items():
            s['properties'][k] = hoist('schemas', 'Hoisted', props(p))
        return s

    def params(d, outside):
        for k, p in (d.get('parameters') or {}).items():
            d['parameters'][k] = hoist('parameters', 'Hoisted', p, outside)

    for m in list(comps.get('messages', {}).values()): message(m)
    for m in list(comps.get('messageTraits', {}).values()): trait(m)
    if not v3:
        for addr, ch in doc['channels'].items():
            params(ch, True)
            for k in ('publish', 'subscribe'):
                m = ch.get(k, {}).get('message')
                if m and '$ref' in m:
                    if dep: m['$ref'] = file + m['$ref']
                elif m:
                    message(m)
                    ch[k]['message'] = hoist('messages', 'Hoisted', m, True)
    else:
        for m in (m for ch in doc['channels'].values() for m in ch.get('messages', {}).values()): message(m)
        for k, ch in doc['channels'].items():
            params(ch, False)
            if dep:
                other['channels'][k] = hoist('channels', k, ch, same=True)
            doc['channels'][k] = hoist('channels', k, ch, True, same=True) if not dep else ref(file + '#/components/channels/' + k)
        for k, o in doc['operations'].items():
            if 'reply' in o:
                if 'address' in o['reply']: o['reply']['address'] = hoist('replyAddresses', 'Hoisted', o['reply']['address'])
                o['reply'] = hoist('replies', 'Hoisted', o['reply'])
            doc['operations'][k] = hoist('operations', k, o, True, same=True)
    if dep:
        return dict({k: v for k, v in doc.items() if k != 'components'}), other
    return doc, None


# --- Broken.tla: where references can be -------------------------------------------

O1 = {'type': 'object', 'properties': {'q': {'type': 'string'}}}
MSG = {'payload': O1}
SLOTS = {       # slot: kind of the component, definition, path in the document
    2: dict(
        message=('messages', MSG, 'channels/c/publish/message'),
        param=('parameters', {'schema': {'type': 'string'}}, 'channels/c.{id}/parameters/id'),
        pschema=('schemas', {'type': 'string'}, 'channels/c.{id}/parameters/id/schema'),
        headers=('schemas', O1, 'channels/c/subscribe/message/headers'),
        payload=('schemas', O1, 'components/messages/M/payload'),
        corr=('correlationIds', {'location': '$message.header#/h'}, 'channels/c/subscribe/message/correlationId'),
    ),
    3: dict(
        message=('messages', MSG, 'channels/c/messages/m'),
        param=('parameters', {'description': 'x'}, 'channels/c/parameters/id'),
        headers=('schemas', O1, 'channels/d/messages/m/headers'),
        payload=('schemas', O1, 'components/messages/M/payload'),
        op=('operations', {'action': 'send', 'channel': {'$ref': '#/channels/d'}}, 'operations/p'),
        channel=('channels', {'address': 'x', 'messages': {'m': MSG}}, 'channels/d'),
        opchannel=('channels', {'address': 'x', 'messages': {'m': MSG}}, 'operations/o/channel'),
        reply=('replies', {'channel': {'$ref': '#/channels/d'}}, 'operations/o/reply'),
        replychannel=('channels', {'address': 'x', 'messages': {'m': MSG}}, 'operations/o/reply/channel'),
        address=('replyAddresses', {'location': '$message.header#/h'}, 'operations/o/reply/address'),
        corr=('correlationIds', {'location': '$message.header#/h'}, 'channels/d/messages/m/correlationId'),
        trait=('messageTraits', {'headers': O1}, 'channels/d/messages/m/traits/0'),
        theaders=('schemas', O1, 'channels/d/messages/m/traits/0/headers'),
        optrait=('operationTraits', {'title': 'x'}, 'operations/o/traits/0'),
        tag=('tags', {'name': 'x'}, 'channels/c/tags/0'),
        docs=('externalDocs', {'url': 'http://x'}, 'operations/o/externalDocs'),
        chserver=('servers', {'host': 'x', 'protocol': 'nats'}, 'channels/d/servers/0'),
        tsecurity=('securitySchemes', {'type': 'plain'}, 'servers/t/security/0'),
        server=('servers', {'host': 'x', 'protocol': 'nats'}, 'servers/s'),
        variable=('serverVariables', {'default': 'x'}, 'servers/t/variables/v'),
        security=('securitySchemes', {'type': 'plain'}, 'operations/o/security/0'),
        sbind=('serverBindings', {}, 'servers/t/bindings'),
        cbind=('channelBindings', {}, 'channels/c/bindings'),
        obind=('operationBindings', {}, 'operations/o/bindings'),
        mbind=('messageBindings', {}, 'channels/d/messages/m/bindings'),
    ),
}
for _m in (2, 3):
    _p = 'channels/c/publish/message/payload/properties/' if _m == 2 else 'channels/c/messages/m/payload/properties/'
    SLOTS[_m].update(prop=('schemas', {'type': 'integer'}, _p + 'p'), items=('schemas', O1, _p + 'a/items'), addl=('schemas', O1, _p + 'm/additionalProperties'),
                     allof=('schemas', O1, _p + 'o/allOf/0'), anyof=('schemas', O1, _p + 'o/anyOf/0'), oneof=('schemas', O1, _p + 'o/oneOf/0'),
                     sprop=('schemas', {'type': 'integer'}, 'components/schemas/S/properties/p'))


def broken_doc(v, pkg):
    """The documents of a scenario of Broken."""
    ver, slot = v['ver'], v['slot']
    kind, d, path = SLOTS[ver][slot]
    head = lambda: {'asyncapi': '3.0.0' if ver == 3 else '2.6.0', 'info': {'title': 'x', 'version': '1.0.0'}}
    pay = lambda: {'type': 'object', 'properties': {'p': {'type': 'integer'}, 'a': {'type': 'array', 'items': {'type': 'string'}},
                   'm': {'type': 'object', 'additionalProperties': {'type': 'string'}}, 'o': {'type': 'object', 'properties': {'z': {'type': 'string'}}}}}
    heads = lambda: obj({'h': STR})
    comps = lambda: {'schemas': {'S': obj({'p': STR})}, 'messages': {'M': {'payload': obj({'p': STR})}}}
    main, dep = dict(head(), components=comps()), dict(head(), components=comps())
    if ver == 2:
        main['channels'] = {'c': {'publish': {'message': {'payload': pay()}}, 'subscribe': {'message': {'payload': pay(), 'headers': heads()}}},
                            'c.{id}': {'publish': {'message': {'$ref': '#/components/messages/M'}}, 'parameters': {'id': {'schema': {'type': 'string'}}}}}
    else:
        main.update(servers={'s': {'host': 'x', 'protocol': 'nats'}, 't': {'host': 'x', 'protocol': 'nats', 'variables': {'v': {}}, 'security': [{'type': 'plain'}]}},
                    channels={'c': {'address': 'c.{id}', 'parameters': {'id': {}}, 'messages': {'m': {'payload': pay(), 'headers': heads()}}, 'tags': [{'name': 'x'}], 'servers': [ref('#/servers/t')]},
                              'd': {'address': 'd', 'messages': {'m': {'payload': pay(), 'headers': heads(), 'traits': [{'headers': O1}]}}}},
                    operations={'o': {'action': 'receive', 'channel': {'$ref': '#/channels/c'}, 'traits': [{'title': 'x'}], 'security': [{'type': 'plain'}],
                                      'messages': [ref('#/channels/c/messages/m')], 'reply': {'channel': {'$ref': '#/channels/d'}, **({} if slot == 'channel' else {'messages': [ref('#/channels/d/messages/m')]})}}, 'p': {'action': 'send', 'channel': {'$ref': '#/channels/d'}}})
        dep['channels'] = {'d': {'address': 'd', 'messages': {'m': {'payload': pay()}}}}
        if slot == 'address':
            dep['channels']['d']['messages']['m']['headers'] = heads()
    file = pkg + '_dep.json'
    other = 'messages' if kind == 'schemas' else 'schemas'

    def target(t, here):
        f = file if not here and v['start'] in ('n1', 'n2') and v['file']['n1' if t == 'n1' else 'n2'] == 'dep' else ''
        return {'absent': f + '#/components/%s/nothing' % kind, 'kind': f + '#/components/%s/%s' % (other, 'M' if other == 'messages' else 'S'),
                'under': f + '#/components/%s/good/nothing' % kind, 'below': f + '#/components/%s/good/properties/nothing' % kind, 'unknown': f + '#/components/things/good', 'root': f + '#/things/good',
                'null': f + '#/components/%s/empty' % kind, 'nofile': 'nofile.json#/components/%s/good' % kind, 'elsewhere': 'elsewhere/%s#/components/%s/good' % (file, kind), 'hash': '#', 'short': f + '#/components/' + kind,
                'text': 'good', 'n1': f + '#/components/%s/n1' % kind, 'n2': f + '#/components/%s/n2' % kind}[t]
    for x in (main, dep):
        x['components'].setdefault(kind, {}).update(good=d, **({'empty': None} if 'null' in [v['start']] + list(v['node'].values()) else {}))
    for n in ('n1', 'n2'):
        here = v['file'][n] == 'dep'
        (dep if here else main)['components'][kind][n] = d if v['node'][n] == 'def' else ref(target(v['node'][n], here))
    keys = path.split('/')
    x = main
    for a, b in zip(keys, keys[1:]):
        a = int(a) if isinstance(x, list) else a
        if isinstance(x, dict) and (a not in x or '$ref' in x[a]): x[a] = {}
        if b == '0' and not isinstance(x[a], list): x[a] = [{}]
        x = x[a]
    x[0 if isinstance(x, list) else keys[-1]] = ref(target(v['start'], False))
    return main, dep


# --- Validation.tla ----------------------------------------------------------------------

BASES = {-1: -10 ** 6, 0: 0, 1: 10 ** 6, 2: 10 ** 15}
NOBOUND = [9, 9]
ITEMS = {'strings': 'string', 'integers': 'integer', 'numbers': 'number', 'booleans': 'boolean'}
LONG = 'é' + 149 * 'z'


def number(x):
    """The JSON number of a pair of the specification."""
    two = 2 * BASES[x[0]] + x[1]
    return two // 2 if two % 2 == 0 else two / 2


def constrained(c):
    """The schema of constraints."""
    k = c['kind']
    if k in ITEMS:
        d = {'type': 'array', 'items': {'type': ITEMS[k]}}
        if c['unique']: d['uniqueItems'] = True
    elif k == 'object':
        d = {'type': 'object'}
    elif k == 'other':
        d = {'type': 'object'} if c['type'] == 'object' else dict(LEAVES[c['type']])
        if c['values']: d['enum'] = [json.loads(x) for x in c['values']]
        if c['value'] != 'none': d['const'] = json.loads(c['value'])
    else:
        d = dict(LEAVES[k])
    for f, w in (('lo', 'minimum'), ('xlo', 'exclusiveMinimum'), ('hi', 'maximum'), ('xhi', 'exclusiveMaximum')):
        if c.get(f, NOBOUND) != NOBOUND: d[w] = number(c[f])
    for f, w in (('minl', 'minLength'), ('maxl', 'maxLength')):
        if c.get(f, -1) >= 0: d[w] = c[f]
    if c.get('enum'): d['enum'] = [text(x) for x in c['enum']]
    if c.get('const', '<none>') != '<none>': d['const'] = text(c['const'])
    return d


def instance(kind, v):
    """The JSON value of a value of the specification."""
    if kind in ('integers', 'numbers'): return [number(x) for x in v]
    if kind in ('integer', 'int32', 'number', 'float'): return number(v)
    if kind == 'object': return {}
    if kind == 'other': return json.loads(v)
    if kind == 'strings': return [text(x) for x in v]
    return text(v) if isinstance(v, str) else v


def validation(doc, items, forced):
    """A message whose properties are constrained; items: (case, required, via). Returns its scenario."""
    inner = {'type': 'object', 'properties': {}, 'required': []}        # what is in an allOf
    pay = {'type': 'object', 'properties': {}, 'required': []}
    head = {'type': 'object', 'properties': {}, 'required': []}
    base, baseh, probes = {}, {}, []
    comps = doc.doc['components'].setdefault('schemas', {})
    def comp(d):
        # the same constraints are the same component, for required and optional properties
        k = json.dumps(d, sort_keys=True)
        for n, x in comps.items():
            if n.startswith('Cons') and json.dumps(x, sort_keys=True) == k: return ref('#/components/schemas/' + n)
        n = 'Cons%d' % len(comps)
        comps[n] = d
        return ref('#/components/schemas/' + n)
    for i, (v, req, via) in enumerate(items):
        c, p = v['c'], 'p%d' % i
        kind, s = c['kind'], constrained(v['c'])
        vals = [(instance(kind, x), True) for x in v['good']] + [(instance(kind, x), False) for x in v['bad']]
        vals.sort(key=lambda x: (not x[1], json.dumps(x[0])))
        if v['islong']: vals.append((LONG, v['long']))
        good = next(x for x, ok in vals if ok)
        absent, seen = v['absent']['req' if req else 'opt'], v['seen']['forced' if forced else 'free'] or not req
        if via == 'header':
            head['properties'][p] = s
            if req: head['required'].append(p)
            baseh[p] = good
            probes += [dict(h={p: x}, ok=ok) for x, ok in vals]
            if seen: probes.append(dict(dh=[p], ok=absent))
            continue
        wrap = lambda x: x
        if via == 'ref':
            s = comp(s)
        elif via == 'chain':
            s = comp(comp(s))
        elif via.startswith('nested'):
            s = {'type': 'object', 'properties': {'v': s}}
            if req: s['required'] = ['v']
            if via == 'nestedref': s = comp(s)
            wrap = lambda x: {'v': x}
            if seen: probes.append(dict(p={p: {}}, ok=absent))
        to = inner if via == 'allOf' else pay
        to['properties'][p] = s
        nested = via.startswith('nested')
        outer = req if not nested else i % 2 == 0
        if outer: (to if i % 3 else pay)['required'].append(p)
        base[p] = wrap(good)
        probes += [dict(p={p: wrap(x)}, ok=ok) for x, ok in vals]
        if not nested and seen: probes.append(dict(dp=[p], ok=absent))
        if nested and (forced or not outer): probes.append(dict(dp=[p], ok=not outer))
    for o in (pay, head, inner):
        if not o['required']: del o['required']
    if inner['properties']:
        pay['allOf'] = [inner] if doc.i % 2 else [comp(inner)]
    # nothing else than what is required
    opt = [p for p in base if p not in pay.get('required', []) + inner.get('required', [])]
    opth = [p for p in baseh if p not in head.get('required', [])]
    probes += [dict(ok=True), dict(dp=opt, dh=opth, ok=True)]
    m = {'payload': pay}
    if baseh: m['headers'] = head
    if doc.ver == 2 and doc.i % 2: m['payload'] = comp(pay)
    return dict(doc.op(m), base=base, baseh=baseh, probes=probes)


# --- Objects.tla -------------------------------------------------------------------------

def used(env, s):
    """The names of the environment that a schema refers to."""
    out, todo = set(), [s]
    while todo:
        x = todo.pop()
        if isinstance(x, dict):
            if x.get('k') == 'ref' and x['to'] not in out:
                out.add(x['to'])
                todo.append(env[x['to']])
            todo += list(x.values())
        elif isinstance(x, list):
            todo += x
    return out


def objects(doc, v, i):
    """Adds the message of a scenario of Objects.tla, returns what to replay."""
    b = lambda s: base64.b64encode(text(s).encode()).decode()
    u = used(v['env'], v['msg'])
    names = envs(doc, {n: s for n, s in v['env'].items() if n in u}, i)
    probes = []
    for p in v['probes']:
        d = dict(p=b(p['p']), err=not p['ok'])
        if p['ok']: d['ep'] = b(p['ep'])
        if p.get('set', {}).get('from'): d['set'] = {k: text(x) for k, x in p['set'].items()}
        probes.append(d)
    return dict(doc.op(message(v['msg'], names)), json=[], probes=probes)


# --- Shape.tla ---------------------------------------------------------------------------

def aliased(d):
    """Gives another name to the package of the custom types."""
    if isinstance(d, dict):
        if d.get('x-go-type') == 'netip.Addr':
            d['x-go-type'], d['x-go-type-import'] = 'ipx.Addr', {'name': 'ipx', 'path': 'net/netip'}
        for x in d.values(): aliased(x)
    elif isinstance(d, list):
        for x in d: aliased(x)


def shape(doc, v, i):
    s = objects(doc, v, i)
    return dict(s, go=v['go'])


def imported(ver, pkg, v, i, path):
    """The files of a document with only one custom type, and what to replay."""
    main, dep = Doc(ver, pkg), Doc(ver, pkg)
    place = v['d']['message']
    u = used(v['env'], v['msg'])
    names = envs(main if place != 'dep' else dep, {n: s for n, s in v['env'].items() if n in u}, i)
    name = dict(same='ipx', other='ipy', unnamed=None).get(v['d']['other'])
    if v['d']['other'] != 'none':
        main.comp('schemas', 'Another', {'type': 'string', 'x-go-type': (name or 'netip') + '.Prefix', 'x-go-type-import': dict({'path': 'net/netip'}, **({'name': name} if name else {}))})
    m = message(v['msg'], names)
    files = [path + '.json'] + ([path + '_dep.json'] if place == 'dep' else [])
    if place == 'inline':
        s = main.op(None, message=m)
    elif place == 'trait':
        s = main.op(dict(m, traits=[ref(main.comp('messageTraits', 'Tr', {'payload': m.pop('payload')}))]))
    elif place == 'dep':
        dep.comp('messages', 'Other', m)
        s = main.op(None, message=ref('%s#/components/messages/Other' % os.path.basename(files[1])))
        dep.write(files[1])
    else:
        s = main.op(m)
    main.write(files[0])
    b = lambda s: base64.b64encode(text(s).encode()).decode()
    probes = [dict(dict(p=b(p['p']), err=not p['ok']), **(dict(ep=b(p['ep'])) if p['ok'] else {})) for p in v['probes']]
    return dict(s, json=[], probes=probes), files


# --- Command.tla -------------------------------------------------------------------------

def yaml(x, level=0):
    """YAML (block style) of a document."""
    pad = '  ' * level
    if isinstance(x, dict) and x:
        return ''.join('\n' * (level > 0 and i == 0) + pad + (k if k.isalpha() else json.dumps(k)) + ':' + (yaml(v, level + 1) or '') + ('' if isinstance(v, (dict, list)) and v else '\n')
                       for i, (k, v) in enumerate(x.items()))
    if isinstance(x, list) and x:
        return '\n' + ''.join(pad + '-' + yaml(v, level + 1) + ('' if isinstance(v, (dict, list)) and v else '\n') for v in x)
    return ' ' + json.dumps(x)


def command_doc(major, version):
    props = {'userName': STR, 'created_at': {'type': 'string', 'format': 'date-time'}, 'ID': {'type': 'integer'}, 'x': obj({'deepValue': STR}, ['deepValue'])}
    msg = {'headers': obj({'traceId': STR}), 'payload': obj(props, ['ID'])}
    d = {'asyncapi': version, 'info': {'title': 'Command', 'version': '1.2.3'}}
    if major == 2:
        d['channels'] = {'some.channel': {'publish': {'message': ref('#/components/messages/Some')}, 'subscribe': {'message': ref('#/components/messages/Other')}}}
    else:
        d['channels'] = {c: {'address': 'some.' + c, 'messages': {m: ref('#/components/messages/' + m)}} for c, m in (('some', 'Some'), ('other', 'Other'))}
        d['operations'] = {'getSome': {'action': 'receive', 'channel': ref('#/channels/some')}, 'giveOther': {'action': 'send', 'channel': ref('#/channels/other')}}
    d['components'] = {'messages': {'Some': msg, 'Other': {'payload': obj({'userName': ref('#/components/schemas/Name')})}},
                       'schemas': {'Name': {'type': 'string'}}}
    for k in [k for k in d if version == '@absent' and k == 'asyncapi']: del d[k]
    return d


VERSIONS = {'@null': None, '@number2': 2, '@number3': 3, '@float': 2.6, '@list': ['2.6.0'], '@object': {'2.6.0': '2.6.0'}, '@true': True}


def command(v):
    """The files, arguments and output of a command."""
    q, major = v['c'], v['major']
    d = command_doc(major, VERSIONS.get(q['version'], q['version']))
    js = json.dumps(d)
    texts = dict(yaml=yaml(d), json=js, cut=js[:len(js) * 2 // 3], empty='', spaces=' \n\t\n' if q['file'].endswith('.json') else ' \n\n', list='[' + js + ']', text='"asyncapi"',
                 number='2.6', null='null')
    files, args, kept = [], [], True
    for name in (q['file'],):
        if q['content'] == '@directory': files.append((name, None))
        elif q['content'] != '@missing': files.append((name, texts[q['content']]))
        args += ['-i', name]
    dep = {'asyncapi': d.get('asyncapi', '2.6.0'), 'info': {'title': 'Other', 'version': '1.0.0'}, 'channels': {}}
    deps = dict(yaml=[('dep.yaml', yaml(dep))], json=[('dep.json', json.dumps(dep))], two=[('dep.json', json.dumps(dep)), ('deps/dep.yml', yaml(dep))],
                text=[('dep.txt', yaml(dep))], cut=[('dep.json', json.dumps(dep)[:30])])
    deps['@missing'], deps['@none'] = [('missing.yaml', False)], []
    for name, content in deps[q['dependency']]:
        if content is not False: files.append((name, content))
        args += ['--input', name]
    for flag, f in (('-g', 'generate'), ('-n', 'naming'), ('-c', 'keys'), ('-p', 'package')):
        if q[f] != '@default': args += [flag, q[f]]
    args += dict(force=['--force-pointers'], ignore=['--ignore-string-format'], both=['--ignore-string-format', '--force-pointers'],
                 **{'@unknown': ['--force'], '@none': []})[q['extra']]
    if q['layout'] != '@default': args.append('-f')
    case = dict(scenario=v, files=files, args=args, accept=v['accept'], out=q['target'])
    if q['target'] == '@default': case['out'] = 'asyncapi.gen.go'
    elif q['target'] == '@directory':
        files.append(('outdir', None))
        args += ['-o', 'outdir']
        case.update(out='outdir/none', before=False)
    else: args += ['-o', q['target']]
    if q['target'].startswith('missing'): case['before'] = False
    return case


# --- Generation.tla ----------------------------------------------------------------------

def reordered(x, order, rng):
    """The same value, with the keys of its objects in another order."""
    if isinstance(x, dict):
        keys = list(x)
        if order == 'reversed': keys.reverse()
        elif order == 'sorted': keys.sort()
        elif order.startswith('shuffled'): rng.shuffle(keys)
        return {k: reordered(x[k], order, rng) for k in keys}
    return [reordered(v, order, rng) for v in x] if isinstance(x, list) else x


def Dumper():
    """Writes YAML that means the same for all its versions: only words are written without quotes."""
    import yaml as pyyaml

    class D(pyyaml.SafeDumper):
        pass
    words = re.compile(r'[A-Za-z#/][A-Za-z0-9_ ./-]*[A-Za-z0-9]$')
    others = {'true', 'false', 'null', 'yes', 'no', 'on', 'off', 'y', 'n'}
    D.add_representer(str, lambda d, v: d.represent_scalar('tag:yaml.org,2002:str', v, None if words.match(v) and v.lower() not in others else '"'))
    return D


def presented(x, form):
    """The text of a document."""
    import yaml as pyyaml
    if form == 'json': return json.dumps(x, indent=1, ensure_ascii=False)
    if form == 'compact': return json.dumps(x, ensure_ascii=False, separators=(',', ':'))
    if form == 'ascii': return json.dumps(x, indent='\t')
    if form == 'aliases':
        seen = {}
        def shared(v):
            if isinstance(v, dict): v = {k: shared(w) for k, w in v.items()}
            elif isinstance(v, list): v = [shared(w) for w in v]
            else: return v
            return seen.setdefault(json.dumps(v, sort_keys=True), v)
        return pyyaml.dump(shared(x), Dumper=Dumper(), sort_keys=False, allow_unicode=True, width=80)
    class Plain(Dumper()):
        def ignore_aliases(self, data): return True
    if form == 'flow': return pyyaml.dump(x, Dumper=Plain, sort_keys=False, default_flow_style=True)
    t = pyyaml.dump(x, Dumper=Plain, sort_keys=False, default_flow_style=False, allow_unicode=True, width=10000)
    if form == 'comments':
        t = '# a comment: {"asyncapi": 1}\n---\n' + ''.join(l + (' # comment\n\n' if l.endswith(':') else '\n') for l in t.splitlines())
    if form == 'crlf': t = t.replace('\n', '\r\n')
    return t


def presentation(files, p, args):
    """The files and arguments of a command, for a document (and its dependencies); @DIR@ is its directory."""
    (_, main), deps = files[0], files[1:]
    ext = 'json' if p['format'] in ('json', 'compact', 'ascii') else 'yml' if p['format'] == 'flow' else 'yaml'
    name = '%s.%s' % (p['name'], ext)

    def texts():
        rng = random.Random(json.dumps(p, sort_keys=True))
        return ([(name, presented(reordered(main, p['order'], rng), p['format']))] +
                [(n, presented(reordered(x, p['deporder'], rng), p['depformat'])) for n, x in deps])
    given = ['@DIR@/' + name if p['cwd'] == 'absolute' else name] + [n for n, _ in deps]
    if p['inputs'] == 'reversed': given[1:] = given[:0:-1]
    ins = dict(joined=['-i', ','.join(given)], long=['--input=' + g for g in given]).get(p['inputs']) or sum((['-i', g] for g in given), [])
    target = 'another.go' if p['target'] == 'another.go' else 'out.gen.go'
    return dict(files=texts, args=ins + ['-p', 'pkg', '-o', '@DIR@/' + target if p['target'] == 'absolute' else target] + args, out=target,
                before=p['target'] == 'existing')


WORDS = ['y', 'n', 'Y', 'N', 'yes', 'no', 'on', 'off', 'id', 'true1']


def plain_words(word, place, form):
    """A document with a word that is not quoted, as name of a property or in an enumeration."""
    s = obj({'@': STR}) if place == 'key' else obj({'x': {'type': 'string', 'enum': ['@', 'other']}})
    d = Doc(3, 'words')
    d.op({'payload': s})
    if form == 'json': return presented(d.doc, 'json').replace('"@"', json.dumps(word))
    return presented(d.doc, 'yaml').replace('"@"', word)


# --- Remarks.tla: what has no effect ---------------------------------------------------

TEXTS = dict(
    plain='Some text.', lines='two\nlines', end='with an end\n', blank='before\n\n\nafter\n\n', crlf='first\r\nsecond\r\n', close='*/ /* // */', quotes='" \' ` \\ \\n',
    code='package other\n\nimport "fmt"\n\nfunc init() { panic("x") }\ntype (', template='{{ .Name }} {{ end }} {{/* %d %s %!', tabs='a list:\n\t- one\n\t\t- two\n    - three',
    unicode='\u00e9\u00fc \u65e5\u672c \u2028 \u00a0end', number='123', directive='//go:build never\n// +build never\n//go:embed x\n//line x.go:1')
TAGS = [{'name': 'one', 'description': 'first\nsecond'}, {'name': 'two "words"', 'externalDocs': {'url': 'http://x/y'}}]
DOCUMENTATION = {'description': 'more\nthere', 'url': 'http://x/y?z="1"'}
SCHEME = {'type': 'userPassword', 'description': 'user\nand password'}


def remark(ver, o, kind, f):
    """The fields that are added to an object for a remark that is not a text."""
    v3 = ver == 3
    bindings = dict(
        server={'mqtt': {'clientId': 'x', 'cleanSession': True}, 'nats': {}},
        channel={'kafka': {'topic': 'x', 'partitions': 3}, 'amqp': {'is': 'queue', 'queue': {'name': 'x'}}},
        operation={'kafka': {'groupId': {'type': 'string', 'enum': ['x']}}, 'mqtt': {'qos': 1}},
        message={'kafka': {'key': {'type': 'string'}, 'bindingVersion': '0.4.0'}})
    bindings['trait'] = bindings['message']
    example = {'string': 'text', 'items': 'text', 'number': 1.5, 'date': '2024-01-02T03:04:05Z', 'enum': 'a', 'array': ['text', 'other'], 'header': 'text'}.get(o, {'text': 'x'})
    return {
        'x-text': {'x-text': 'a\n"text"'}, 'x-object': {'x-go': {'type': 'x', 'properties': {'y': None}}}, 'x-list': {'x-list': [1, [2, {}], 'x']},
        'id': {'id': 'urn:x:y'}, 'contenttype': {'defaultContentType': 'application/json'} if kind == 'root' else {'contentType': 'application/json'},
        'servers': {'servers': {'aux': {'host': 'x:1', 'protocol': 'kafka'} if v3 else {'url': 'x:1', 'protocol': 'kafka', 'description': 'more\nthere'}}},
        'tags': {'tags': TAGS}, 'docs': {'externalDocs': DOCUMENTATION}, 'terms': {'termsOfService': 'http://x/"y"'}, 'contact': {'contact': {'name': 'x\ny', 'email': 'x@y', 'url': 'http://x'}},
        'license': {'license': {'name': 'x "y"', 'url': 'http://x'}}, 'bindings': {'bindings': bindings.get(kind)},
        'variables': {'variables': {'v': {'enum': ['a', 'b'], 'default': 'a', 'description': 'x\ny', 'examples': ['a']}}},
        'security': {'security': [SCHEME, {'type': 'oauth2', 'flows': {'implicit': {'authorizationUrl': 'http://x', 'availableScopes': {'s': 'x\ny'}}}, 'scopes': ['s']}] if v3 else [{'x': []}]},
        'usedservers': {'servers': [ref('#/servers/main')] if v3 else ['main']},
        'traits': {'traits': [{'title': 'x\ny', 'description': 'x\ny', 'tags': TAGS}]},
        'examples': {'examples': [{'name': 'x y', 'summary': 'a\nb', 'headers': {'h': 'x'}, 'payload': {'text': 'x'}}] if kind in ('message', 'trait') else [example, example]},
        'textexample': {'examples': [{'payload': 'text'}, {'payload': ['text', 1]}]},
        'named': {'name': 'other.name', 'messageId': 'x'}, 'schemaformat': {'schemaFormat': 'application/vnd.aai.asyncapi;version=2.6.0'},
        'choices': {'enum': ['a', 'b']}, 'default': {'default': 'a'} if kind == 'parameter' else {'default': example}, 'example': {'examples': ['a', 'b']},
        'readonly': {'readOnly': True}, 'writeonly': {'writeOnly': True}, 'deprecated': {'deprecated': True}, 'comment': {'$comment': 'x\ny'},
        'not': {'not': {'type': 'string', 'maxLength': 3}}, 'if': {'if': {'type': 'object', 'properties': {'z': STR}, 'required': ['z']}, 'then': {'type': 'object'}, 'else': False},
        'pattern': {'pattern': '^[a-z"\'`,\\\\]+$'}, 'password': {'format': 'password'}, 'media': {'contentMediaType': 'text/plain', 'contentEncoding': 'base64'},
        'multiple': {'multipleOf': 0.5}, 'multiples': {'multipleOf': 2}, 'counts': {'minItems': 0, 'maxItems': 7}, 'contains': {'contains': {'type': 'string'}},
        'otheritems': {'additionalItems': False}, 'sizes': {'minProperties': 0, 'maxProperties': 100}, 'names': {'propertyNames': {'pattern': '^[a-z]+$'}},
        'patterns': {'patternProperties': {'^x': {'type': 'string'}}}, 'depends': {'dependencies': {'text': ['number']}}, 'discriminator': {'discriminator': 'text'},
    }[f]


def remarked(ver, said):
    """A document where everything is, and that says more."""
    string, header, items = {'type': 'string'}, {'type': 'string'}, {'type': 'string'}
    o = dict(string=string, header=header, items=items, number={'type': 'number'}, date={'type': 'string', 'format': 'date-time'}, enum={'type': 'string', 'enum': ['a', 'b']},
             any={}, inner=obj({'deep': STR}, ['deep']), array={'type': 'array', 'items': items}, map={'type': 'object', 'additionalProperties': {'type': 'integer'}},
             composed={'allOf': [ref('#/components/schemas/Component'), obj({'own': STR})]}, reference=ref('#/components/schemas/Component'),
             component=obj({'field': STR, 'other': {'type': 'boolean'}}, ['field']))
    o['object'] = obj({'inner': o['inner'], 'plain': {'type': 'integer'}})
    o['payload'] = obj({k: o[k] for k in ('string', 'number', 'date', 'enum', 'any', 'object', 'array', 'map', 'composed', 'reference')}, ['number', 'enum', 'reference'])
    o['headers'] = obj({'corr': STR, 'where': STR, 'more': header})
    o['correlation'] = {'location': '$message.header#/corr'}
    o['message'] = {'headers': o['headers'], 'payload': o['payload'], 'correlationId': o['correlation']}
    o['refmessage'] = {'headers': obj({'h': STR}), 'payload': obj({'text': STR})}
    o['info'] = {'title': 'Remarks', 'version': '7.0.1-own'}
    comps = {'schemas': {'Component': o['component']}, 'messages': {'Referenced': o['refmessage']}}
    if ver == 2:
        o['parameter'] = {'schema': STR}
        o['operation'] = {'operationId': 'getIt', 'message': o['message']}
        o['sender'] = {'operationId': 'giveIt', 'message': ref('#/components/messages/Referenced')}
        o['channel'] = {'publish': o['operation']}
        o['paramchannel'] = {'subscribe': o['sender'], 'parameters': {'id': o['parameter']}}
        root = o['root'] = {'asyncapi': '2.6.0', 'info': o['info'], 'servers': {'main': {'url': 'x', 'protocol': 'nats'}}, 'channels': {'it': o['channel'], 'other.{id}': o['paramchannel']}, 'components': comps}
    else:
        o['parameter'] = {}
        o['trait'] = {'headers': obj({'fromTrait': STR})}
        o['message']['traits'] = [o['trait']]
        o['answer'] = {'payload': STR}
        o['channel'] = {'address': 'it', 'messages': {'it': o['message']}}
        o['paramchannel'] = {'address': 'other.{id}', 'messages': {'other': ref('#/components/messages/Referenced')}, 'parameters': {'id': o['parameter']}}
        o['address'] = {'location': '$message.header#/where'}
        o['reply'] = {'channel': ref('#/channels/answers'), 'address': o['address']}
        o['operation'] = {'action': 'receive', 'channel': ref('#/channels/it')}
        o['asker'] = {'action': 'receive', 'channel': ref('#/channels/it'), 'reply': o['reply']}
        o['sender'] = {'action': 'send', 'channel': ref('#/channels/other')}
        o['server'] = {'host': 'x', 'protocol': 'nats'}
        root = o['root'] = {'asyncapi': '3.0.0', 'info': o['info'], 'servers': {'main': o['server']},
                            'channels': {'it': o['channel'], 'other': o['paramchannel'], 'answers': {'messages': {'answer': o['answer']}}},
                            'operations': {'getIt': o['operation'], 'askIt': o['asker'], 'giveIt': o['sender']}, 'components': comps}
    for name, kind, f, v in said:
        more = {f: TEXTS[v]} if f in ('title', 'summary', 'description', 'version') else remark(ver, name, kind, f)
        for k, x in more.items():
            if isinstance(o[name].get(k), dict) and isinstance(x, dict): o[name][k].update(x)
            elif k == 'traits': o[name][k] = o[name].get(k, []) + x
            else: o[name][k] = x
    return root


def versionsaid(said):
    """The version of a document with remarks."""
    return ([TEXTS[v] for _, _, f, v in said if f == 'version'] + ['7.0.1-own'])[0]
