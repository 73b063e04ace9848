"""The schema parser: which constraints each keyword produces, for which
subschema, and where nested subschemas come from."""
import os
from ..engine import *
from ..visitor import *
from ..models import strv, val, cat
from .. import ir

NODE = T('node')
ROOTN = T('rootNode')
SCHEMA = ptr(('sym', T('schema')))
SUB = ptr(('sym', T('sub')))
PARENT = ptr(('sym', T('parent')))
OWN = ptr(('sym', T('own')))
SCOPE = T('scope')
NPATH = T('nodePath')
FETCH = T('fetchDoc')
DOCS = T('docCache')
REG = T('schemaRegistry')
EMPTY = T('emptySubschema')
BUILDERS = T('builders')
OBJ = T('objv', NODE)

D3, D4, D7 = 'kDraft3', 'kDraft4', 'kDraft7'
VERSIONS = (D3, D4, D7)


def V(kw):
    return T('.', 'second', T('elem', OBJ, T('find', S(kw))))


# kinds of a schema value: the tests that hold
BASE = {
    'Null': (('Null',), ()),
    'Bool': (('Bool',), ()),
    'Integer': (('Integer', 'Number'), ('Double',)),
    'Double': (('Double', 'Number'), ()),
    'String': (('String',), ()),
    'Array': (('Array',), ()),
    'Object': (('Object',), ()),
    'Text of an integer': (('String',), ('Integer', 'Double')),
    'Text of a boolean': (('String',), ('Bool',)),
}
STRICT_KINDS = ('Null', 'Bool', 'Integer', 'Double', 'String', 'Array', 'Object')
ALL = ('Array', 'Bool', 'Double', 'Integer', 'Null', 'Object', 'String')


def kindfacts(st, x, kind):
    iss, may = BASE[kind]
    for y in ALL + ('Number',):
        st.facts[isx(x, y)] = y in iss
        if y != 'Number':
            st.facts[maybex(x, y)] = y in iss or y in may
    if 'Integer' in iss:
        st.facts[maybex(x, 'Double')] = True


class Parser(VCheck):
    """Interprets SchemaParser::populateSchema for one scenario."""

    def __init__(self, prog, version, present, custom=False):
        VCheck.__init__(self, prog)
        self.reset()
        self.version = version
        self.present = present          # keyword -> kind
        self.custom = custom
        self.loops = {}                 # collection -> function(pos, element, kind) -> events or 'throw'
        self.elkinds = STRICT_KINDS
        self.its = 0
        self.constraints = {}

    def is_con(self, clst):
        r = self.constraints.get(clst)
        if r is None:
            r = self.constraints[clst] = bool(clst) and clst != 'valijson::constraints::Constraint' and any(b.endswith('::Constraint') for b in self.p.bases(clst))
        return r

    # ------------------------------------------------------------ predicates
    def assume(self, E, st, atom, v):
        if atom[0] == 't' and atom[1] == 'has' and atom[2] == OBJ:
            k = atom[3]
            if k[0] == 's':
                if v != (k[1] in self.present):
                    return False
            elif v and not self.custom:
                return False
        return VCheck.assume(self, E, st, atom, v)

    # ------------------------------------------------------------ collections
    def elem(self, E, st, coll, pos):
        st.mon.setdefault(('start', coll), pos)
        self.cover(st, coll, pos)
        st.mon[('cur', coll, pos)] = ()
        x = None
        if coll[0] == 't' and coll[1] == 'arr':
            x = T('elem', coll, pos)
        elif coll[0] == 't' and coll[1] == 'objv':
            x = T('.', 'second', T('elem', coll, pos))
        if x is None or coll == OBJ:
            return [(st, None)]
        out = []
        for k in self.elkinds:
            s = st.copy()
            kindfacts(s, x, k)
            out.append((s, k))
        return out

    def event(self, st, ev):
        self.nevents += 1
        cur = [k for k in st.mon if k[0] == 'cur' and k[1][0] == 't' and k[1][1] in ('arr', 'objv')]
        if cur:
            st.mon[cur[-1]] = st.mon[cur[-1]] + (ev,)
        else:
            st.mon['top'] = st.mon.get('top', ()) + (ev,)

    def iteration(self, E, st, coll, pos, evs):
        self.its += 1
        f = self.loops.get(coll)
        if coll[0] == 't' and coll[1] == 'arr' and f is None:
            f = self.loops.get('nested')
        if f is None:
            if evs:
                self.undecided.add(('loop', '', 'events in an unexpected loop over %s' % show(coll)[:60]))
            return
        kind = st.facts.get(T('at', coll, pos))
        want = f(pos, T('elem', coll, pos), kind)
        where = self.where
        if want == 'throw':
            self.report('bad element', where, '%s: an element of kind %s is accepted' % (self.what, kind), st)
            return
        if want is None:
            return
        self.match(E, st, list(evs), want, 'an element of kind %s' % kind)

    where = what = ''

    def match(self, E, st, evs, want, which):
        """Events of an iteration against the expected ones (alternatives)."""
        if not isinstance(want, tuple):
            want = (want,)
        for w in want:
            if len(w) == len(evs) and all(self.same(E, st, a, b) for a, b in zip(sorted(evs, key=key), sorted(w, key=key))):
                return
        miss = [e for e in want[0] if not any(self.same(E, st, e, a) for a in evs)]
        extra = [a for a in evs if not any(self.same(E, st, e, a) for e in want[0])]
        msg = '%s: %s: ' % (self.what, which)
        if miss:
            msg += 'expected %s' % '; '.join(describe(e) for e in miss)
        if extra:
            msg += (' but' if miss else 'unexpected') + ' %s' % '; '.join(describe(e) for e in extra)
        if not miss and not extra:
            msg += 'an operation is repeated'
        self.report('element', self.where, msg, st)

    def same(self, E, st, a, b):
        if a == b:
            return True
        if a[0] != b[0] or len(a) != len(b):
            return False
        return all(eqv(st, x, y) for x, y in zip(a, b))

    # ------------------------------------------------------------------ calls
    def hook(self, E, st, c, this, args, node):
        n, cls, sq = c['n'], c.get('cls'), c['sq']
        f = self.p.functions.get(c.get('id'))
        if f is not None and is_factory(f):
            return self.mk(E, st, c, args, node)
        if f is not None and len(args) == 1 and is_escaper(f):
            return [(st, T('esc', strv(E, st, args[0])))]
        if sq.startswith('valijson::internal::uri::') or sq.startswith('uri::'):
            return [(st, T(n, *[strv(E, st, a) for a in args]))]
        if n == 'jsonTypeFromString':
            return [(st, T('jsonType', strv(E, st, args[0])))]
        if n == 'nodeTypeAsString':
            return [(st, T('nodeType'))]
        if sq.startswith('std::map::') and this is not None and E.content(st, this) == REG:
            if n in ('emplace', 'insert', 'try_emplace', 'insert_or_assign', 'operator[]'):
                return [(st, T('regop'))]
        if cls in ('Schema', 'Subschema') and this is not None:
            return self.schema_call(E, st, c, this, args, node)
        if cls == 'ConstraintBuilder' and n == 'make':
            st = st.copy()
            v = T('built', E.snap(st, E.content(st, this)))
            self.event(st, ('build', v, E.snap(st, E.content(st, args[0]))))
            return [(st, ptr(('sym', v)))]
        if self.is_con(c.get('clst')):
            return self.con_call(E, st, c, this, args, node)
        if sq in ('std::vector::push_back', 'std::vector::emplace_back') and args and 'string' in c.get('clst', ''):
            st = st.copy()
            self.event(st, ('push', strv(E, st, args[0])))
            return self.passthru(E, st, c, this, args, node)
        return VCheck.hook(self, E, st, c, this, args, node)

    def adapter_call(self, E, st, c, this, args, node):
        """A conversion without an out-parameter throws unless it applies."""
        n = c['n']
        if this is None or args or n[:3] not in ('get', 'as') and n[:2] != 'as':
            return VCheck.adapter_call(self, E, st, c, this, args, node)
        a = E.snap(st, E.content(st, this) if this[0] == 'ptr' else this)
        x = n[3:] if n[:3] == 'get' else n[2:]
        if x.endswith('Size'):
            x = x[:-4]
        if a[0] == 'iter' or x not in AS:
            return VCheck.adapter_call(self, E, st, c, this, args, node)
        need = isx(a, x) if n[:3] == 'get' else maybex(a, x)
        self.sites.add((node.get('l'), n))
        out = []
        for s, t in E.truth(st, self.pred(st, need)):
            if t:
                out += VCheck.adapter_call(self, E, s, c, this, args, node) or []
            else:
                s = s.copy()
                s.note(node.get('l', ''), '%s() throws' % n)
                E.throw(s, ('exc', 'std::runtime_error', S('adapter')))
        return out

    def by_name(self, c, args):
        f = self.p.functions.get(c.get('fid') or c.get('id') or '') or {}
        ps = f.get('params') or []
        return {p.get('n'): a for p, a in zip(ps, args)}

    def mk(self, E, st, c, args, node):
        a = list(args)
        names = [p.get('n') for p in self.p.functions[c['id']]['params']][:len(a)]
        if not set(names) <= set(self.MK):
            names = self.MK[:len(a)]
        d = dict(zip(names, a))
        st = st.copy()
        g = lambda k: E.snap(st, E.content(st, d[k])) if k in d else UNDEF
        nd = g('node')
        path = strv(E, st, d['nodePath']) if 'nodePath' in d else UNDEF
        parent, own = d.get('parentSubschema', NULL), d.get('ownName', NULL)
        own = strv(E, st, own) if own[0] == 'ptr' else own
        r = T('mk', nd, path, g('currentScope'), g('rootNode'), parent, own)
        self.event(st, ('mk', r))
        for k, w in (('fetchDoc', FETCH), ('docCache', DOCS), ('schemaRegistry', REG), ('rootSchema', T('schema'))):
            if k in d and g(k) != w:
                self.report('context', node.get('l', ''), '%s: the nested schema is not given the same %s' % (self.what, k), st)
        return [(st, r)]

    MK = ['rootSchema', 'rootNode', 'node', 'currentScope', 'nodePath', 'fetchDoc', 'parentSubschema', 'ownName', 'docCache', 'schemaRegistry', 'newRegistryKeys']

    def schema_call(self, E, st, c, this, args, node):
        n = c['n']
        loc = E.snap(st, this)
        st = st.copy()
        if n == 'addConstraintToSubschema':
            v = E.snap(st, E.content(st, args[0]))
            self.event(st, ('addc', v, args[1]))
            self.sites.add((node.get('l'), 'addConstraintToSubschema'))
            return [(st, UNDEF)]
        if n == 'addConstraint':
            v = E.snap(st, E.content(st, args[0]))
            self.event(st, ('addc', v, this))
            return [(st, UNDEF)]
        if n in ('setAlwaysInvalid', 'setSubschemaDescription', 'setSubschemaId', 'setSubschemaTitle'):
            self.event(st, (n, args[0], E.snap(st, val(E, st, args[1]))))
            return [(st, UNDEF)]
        if n == 'emptySubschema':
            return [(st, EMPTY)]
        if n == 'root':
            return [(st, SCHEMA)]
        if n == 'createSubschema':
            return [(st, T('created', node.get('l')))]
        return None

    def con_call(self, E, st, c, this, args, node):
        n, cls = c['n'], c['cls']
        if node.get('k') == 'ctor' or n == cls:
            if len(args) == 1 and (node.get('copy') or node.get('move') or E.content(st, args[0])[0] == 'obj'):
                return [(st, E.content(st, args[0]))]
            self.cid = getattr(self, 'cid', 0)
            return [(st, obj(cls, cid=T('con', cls, node.get('nid', 0)), adds=FALSE))]
        if this is None or this[0] != 'ptr':
            return None
        if n.startswith('set') and len(args) == 1:
            st = st.copy()
            v = E.load(st, this[1])
            a = args[0]
            if a[0] == 'ptr':
                a = E.snap(st, E.content(st, a)) if a != NULL else a
            E.storev(st, this[1], setf(v, n, E.snap(st, a)), node)
            return [(st, UNDEF)]
        if n.startswith('add'):
            st = st.copy()
            v = E.load(st, this[1])
            self.event(st, ('add', getf(v, 'cid'), n) + tuple(E.snap(st, E.content(st, a)) if a[0] == 'ptr' else E.snap(st, a) for a in args))
            E.storev(st, this[1], setf(v, 'adds', TRUE), node)
            st.mon[('added', getf(v, 'cid'))] = True
            return [(st, UNDEF)]
        if n == 'operator=' and args:
            st = st.copy()
            E.storev(st, this[1], E.content(st, args[0]), node)
            return [(st, this)]
        return None


def key(e):
    return repr(e[0])


def is_factory(f):
    """The function that yields the subschema for a node of the document."""
    if f.get('cls') != 'SchemaParser':
        return False
    return f['n'] == 'makeOrReuseSchema' or len(f['params']) >= 9 and f.get('ret', '').startswith('const valijson::Subschema *')


def is_escaper(f):
    r = f.get('escaper')
    if r is None:
        ps = f['params']
        r = False
        if len(ps) == 1 and 'basic_string<char>' in ps[0].get('t', '') and 'basic_string<char>' in f.get('ret', '') and f.get('body') is not None:
            lits = set(n.get('v') for n in ir.walk(f['body']) if n.get('k') == 'str')
            r = {'~0', '~1'} <= lits
        f['escaper'] = r
    return r


def describe(e):
    if e[0] == 'mk':
        return 'the nested schema %s' % show(e[1])[:160]
    if e[0] == 'add':
        return '%s(%s)' % (e[2], ', '.join(show(x)[:100] for x in e[3:]))
    return '%s %s' % (e[0], ', '.join(show(x)[:100] if isinstance(x, tuple) else str(x) for x in e[1:]))


def eqv(st, a, b):
    if a == b:
        return True
    if not (isinstance(a, tuple) and isinstance(b, tuple)):
        return False
    for x, y in ((a, b), (b, a)):
        if y[0] == 'b' and x[0] == 't' and st.facts.get(x) is y[1]:
            return True
    return False


def version_value(prog, name):
    for f in prog.functions.values():
        if f.get('cls') == 'SchemaParser' and f.get('body'):
            for n in ir.walk(f['body']):
                if n.get('k') == 'ref' and n.get('n') == name and 'cv' in n:
                    return int(n['cv']['i'])
    return VERSIONS.index(name)


def populate(prog, adapter):
    best = None
    for f in prog.by_q.get('valijson::SchemaParser::populateSchema', ()):
        if f.get('body') is not None and any(adapter in t for t in f.get('targs') or ()) and len(f['params']) > 6:
            best = f
    return best


PNAMES = {'rootSchema': SCHEMA, 'rootNode': ptr(('sym', ROOTN)), 'node': ptr(('sym', NODE)), 'subschema': SUB,
          'currentScope': ptr(('sym', SCOPE)), 'nodePath': ptr(('sym', NPATH)), 'fetchDoc': FETCH,
          'parentSubschema': PARENT, 'ownName': OWN, 'docCache': ptr(('sym', DOCS)), 'schemaRegistry': ptr(('sym', REG))}


def run_populate(prog, adapter, check, setup, over=()):
    f = populate(prog, adapter)
    if f is None:
        raise AnalysisError('populateSchema not found for ' + adapter)
    st = State()
    vals = []
    order = list(PNAMES)
    for i, p in enumerate(f['params']):
        n = p.get('n') if p.get('n') in PNAMES else order[i] if i < len(order) else None
        v = dict(over).get(n, PNAMES.get(n, UNDEF))
        vals.append(v)
    E = Engine(prog, check)
    this = ptr(('sym', T('parser')))
    st.store[('sym', T('parser'))] = obj('SchemaParser', m_version=I(int(version_value(prog, check.version))), constraintBuilders=BUILDERS)
    setup(E, st)
    check.where = f['loc']
    outs, thrown = E.run(f, st, this, vals)
    return E, outs, thrown


# ------------------------------------------------------------- specification
def conE(cls, cond=None, to=SUB, **sets):
    """An expected constraint: class, setter values, condition on its value."""
    return {'cls': cls, 'sets': sets, 'cond': cond, 'to': to, 'adds': ()}


class Exp:
    """What one scenario must produce."""

    def __init__(self):
        self.throw = []         # reasons why the schema must be rejected
        self.open = False       # the outcome is not specified
        self.cons = []
        self.loops = {}
        self.events = []
        self.may = []           # reasons why the schema may also be rejected

    def add(self, **k):
        self.cons.append(conE(**k))


def mkterm(x, path, own=None):
    return T('mk', x, path, T('scope*'), ROOTN, own or T('none'), T('none'))


def P(*parts):
    v = NPATH
    for p in parts:
        v = cat(v, S(p) if isinstance(p, str) else p)
    return v


def schema_kind(ver, kind):
    return kind == 'Object' or kind == 'Bool' and ver == D7


KEYWORD = {}


def kw(*names):
    def d(f):
        for n in names:
            KEYWORD[n] = f
        return f
    return d


def number(name, cls, setter):
    def f(x, ver, k, pres):
        if k in ('Integer', 'Text of an integer'):
            x.add(cls=cls, cond=T('int', V(name)), **{setter: T('int', V(name))})
        else:
            x.throw.append('%s is %s' % (name, k))
    KEYWORD[name] = f


for _n in ('Items', 'Length', 'Properties'):
    for _m in ('Max', 'Min'):
        number(_m.lower() + _n, '%s%sConstraint' % (_m, _n), 'set%s%s' % (_m, _n))
NUMERIC = ('Integer', 'Double', 'Text of an integer')


def bound(name):
    up = name.capitalize()
    ex = 'exclusive' + up
    cls = up + 'Constraint'

    def f(x, ver, k, pres):
        if k not in NUMERIC:
            x.throw.append('%s is %s' % (name, k))
            return
        sets = {'set' + up: T('num', V(name)), 'setExclusive' + up: FALSE}
        if ver != D7 and ex in pres:
            if pres[ex] not in ('Bool', 'Text of a boolean'):
                return
            sets['setExclusive' + up] = T('boolv', V(ex))
        x.add(cls=cls, **sets)

    def g(x, ver, k, pres):
        if ver == D7:
            if k in NUMERIC:
                x.add(cls=cls, **{'set' + up: T('num', V(ex)), 'setExclusive' + up: TRUE})
            else:
                x.throw.append('%s is %s' % (ex, k))
        elif name not in pres:
            x.throw.append('%s without %s' % (ex, name))
        elif k not in ('Bool', 'Text of a boolean'):
            x.throw.append('%s is %s' % (ex, k))
    KEYWORD[name] = f
    KEYWORD[ex] = g


bound('maximum')
bound('minimum')


@kw('multipleOf', 'divisibleBy')
def _(x, ver, k, pres, name=None):
    name = 'multipleOf' if name is None else name
    if (ver == D3) != (name == 'divisibleBy'):
        x.throw.append('%s in %s' % (name, ver))
    elif k in ('Integer', 'Text of an integer'):
        x.add(cls='MultipleOfIntConstraint', setDivisor=T('int', V(name)))
    elif k == 'Double':
        x.add(cls='MultipleOfDoubleConstraint', setDivisor=T('num', V(name)))
    else:
        x.throw.append('%s is %s' % (name, k))


KEYWORD['multipleOf'], KEYWORD['divisibleBy'] = (lambda f: (lambda x, v, k, p: f(x, v, k, p, 'multipleOf'), lambda x, v, k, p: f(x, v, k, p, 'divisibleBy')))(KEYWORD['multipleOf'])


def text(name, cls, setter):
    def f(x, ver, k, pres):
        if k == 'String':
            x.add(cls=cls, **{setter: T('strv', V(name))})
            if name == 'format':
                x.may.append('empty format')
        elif k.startswith('Text'):
            x.open = True
        else:
            x.throw.append('%s is %s' % (name, k))
    KEYWORD[name] = f


text('format', 'FormatConstraint', 'setFormat')
text('pattern', 'PatternConstraint', 'setPattern')


def annotation(name, event):
    def f(x, ver, k, pres):
        if k == 'String':
            x.events.append((event, SUB, T('strv', V(name))))
        elif k.startswith('Text'):
            x.open = True
        elif name in ('$id', 'id'):
            pass
        else:
            x.throw.append('%s is %s' % (name, k))
    KEYWORD[name] = f


annotation('title', 'setSubschemaTitle')
annotation('description', 'setSubschemaDescription')
annotation('$id', 'setSubschemaId')
annotation('id', 'setSubschemaId')


@kw('const')
def _(x, ver, k, pres):
    if ver != D7:
        x.open = True
    x.add(cls='ConstConstraint', setValue=V('const'))


@kw('enum')
def _(x, ver, k, pres):
    if k == 'Array':
        x.add(cls='EnumConstraint')
        x.loops[T('arr', V('enum'))] = lambda pos, el, kind: [('add', 'EnumConstraint', 'addValue', el)]
    elif k.startswith('Text'):
        x.open = True
    else:
        x.throw.append('enum is %s' % k)


def schemas(name, cls, versions, strict=True):
    def f(x, ver, k, pres):
        if ver not in versions:
            x.open = True
            return
        if k == 'Array':
            x.add(cls=cls)

            def it(pos, el, kind):
                r = mkterm(el, P('/' + name + '/', idx(pos)))
                ok = [('mk', r), ('add', cls, 'addSubschema', r)]
                if schema_kind(ver, kind):
                    return ok
                return ('reject', ok)
            x.loops[T('arr', V(name))] = it
        elif k == 'Object' and name == 'extends':
            r = mkterm(V(name), P('/' + name))
            x.add(cls=cls)
            x.cons[-1]['adds'] = [('add', cls, 'addSubschema', r)]
            x.events.append(('mk', r))
        elif k.startswith('Text'):
            x.open = True
        else:
            x.throw.append('%s is %s' % (name, k))
    KEYWORD[name] = f


def idx(pos):
    return S(str(pos[1])) if pos[0] == 'i' else T('str', pos)


schemas('allOf', 'AllOfConstraint', (D4, D7))
schemas('anyOf', 'AnyOfConstraint', (D4, D7))
schemas('oneOf', 'OneOfConstraint', (D4, D7))
schemas('extends', 'AllOfConstraint', (D3,))


def single(name, cls, setter, versions):
    def f(x, ver, k, pres):
        if ver not in versions:
            x.open = True
            return
        if name == 'items' and k == 'Array':
            tuple_items(x, ver, pres)
            return
        r = mkterm(V(name), P('/' + name))
        if schema_kind(ver, k):
            x.add(cls=cls, **{setter: r})
            x.events.append(('mk', r))
        elif k.startswith('Text'):
            x.open = True
        else:
            x.throw.append('%s is %s' % (name, k))
            x.delegate = True
    KEYWORD[name] = f


def tuple_items(x, ver, pres):
    cls = 'LinearItemsConstraint'
    sets = {}
    a = pres.get('additionalItems')
    if a is None:
        sets['setAdditionalItemsSubschema'] = EMPTY
    elif a in ('Bool', 'Text of a boolean'):
        sets['setAdditionalItemsSubschema'] = ('if', T('boolv', V('additionalItems')), EMPTY)
    elif a == 'Object':
        r = mkterm(V('additionalItems'), P('/additionalItems'))
        sets['setAdditionalItemsSubschema'] = r
        x.events.append(('mk', r))
    elif a.startswith('Text'):
        x.open = True
    else:
        x.throw.append('additionalItems is %s' % a)
    x.add(cls=cls, **sets)

    def it(pos, el, kind):
        r = mkterm(el, P('/items/', idx(pos)))
        ok = [('mk', r), ('add', cls, 'addItemSubschema', r)]
        return ok if schema_kind(ver, kind) else ('reject', ok)
    x.loops[T('arr', V('items'))] = it


single('not', 'NotConstraint', 'setSubschema', (D4, D7))
single('contains', 'ContainsConstraint', 'setSubschema', (D7,))
single('propertyNames', 'PropertyNamesConstraint', 'setSubschema', (D7,))
single('items', 'SingularItemsConstraint', 'setItemsSubschema', VERSIONS)


@kw('additionalItems')
def _(x, ver, k, pres):
    pass


@kw('if')
def _(x, ver, k, pres):
    if ver != D7:
        x.open = True
        return
    sets = {}
    for n, s in (('if', 'setIfSubschema'), ('then', 'setThenSubschema'), ('else', 'setElseSubschema')):
        if n not in pres:
            continue
        r = mkterm(V(n), P('/' + n))
        if schema_kind(ver, pres[n]):
            pass
        elif pres[n].startswith('Text'):
            x.open = True
        else:
            x.throw.append('%s is %s' % (n, pres[n]))
            x.delegate = True
        sets[s] = r
        x.events.append(('mk', r))
    x.add(cls='ConditionalConstraint', **sets)


@kw('then', 'else')
def _(x, ver, k, pres):
    pass


def props(x, ver, pres):
    cls = 'PropertiesConstraint'
    sets = {}
    a = pres.get('additionalProperties')
    if a is None:
        sets['setAdditionalPropertiesSubschema'] = EMPTY
    elif a in ('Bool', 'Text of a boolean'):
        sets['setAdditionalPropertiesSubschema'] = ('if', T('boolv', V('additionalProperties')), EMPTY)
    elif a == 'Object':
        r = mkterm(V('additionalProperties'), P('/additionalProperties'))
        sets['setAdditionalPropertiesSubschema'] = r
        x.events.append(('mk', r))
    elif a.startswith('Text'):
        x.open = True
    else:
        x.throw.append('additionalProperties is %s' % a)
    for n, m in (('properties', 'addPropertySubschema'), ('patternProperties', 'addPatternPropertySubschema')):
        k = pres.get(n)
        if k is None:
            continue
        if k == 'Object':
            def it(pos, el, kind, n=n, m=m):
                f = T('.', 'first', el)
                r = mkterm(T('.', 'second', el), P('/' + n + '/', T('esc', f)), T('own', f) if n == 'properties' else T('any'))
                ok = [('mk', r), ('add', cls, m, f, r)]
                return ok if schema_kind(ver, kind) else ('reject', ok)
            x.loops[T('objv', V(n))] = it
        elif k.startswith('Text'):
            x.open = True
        else:
            x.throw.append('%s is %s' % (n, k))
    x.add(cls=cls, **sets)


@kw('properties', 'patternProperties', 'additionalProperties')
def _(x, ver, k, pres):
    if not any(c['cls'] == 'PropertiesConstraint' for c in x.cons):
        props(x, ver, pres)


@kw('required')
def _(x, ver, k, pres):
    cls = 'RequiredConstraint'
    if ver == D3:
        if k in ('Bool', 'Text of a boolean'):
            x.add(cls=cls, cond=T('boolv', V('required')), to=PARENT)
            x.cons[-1]['adds'] = [('add', cls, 'addRequiredProperty', T('own'))]
        else:
            x.throw.append('required is %s' % k)
    elif k == 'Array':
        x.add(cls=cls)
        x.loops[T('arr', V('required'))] = lambda pos, el, kind: [('add', cls, 'addRequiredProperty', T('strv', el))] if kind == 'String' else 'throw'
    elif k.startswith('Text'):
        x.open = True
    else:
        x.throw.append('required is %s' % k)


@kw('dependencies')
def _(x, ver, k, pres):
    cls = 'DependenciesConstraint'
    if k.startswith('Text'):
        x.open = True
        return
    if k != 'Object':
        x.throw.append('dependencies is %s' % k)
        return
    x.add(cls=cls)

    def it(pos, el, kind):
        f, v = T('.', 'first', el), T('.', 'second', el)
        if kind == 'Array':
            return [('add', cls, 'addPropertyDependencies', f, T('names', T('arr', v)))]
        if schema_kind(ver, kind):
            r = mkterm(v, P('/dependencies/', T('esc', f)))
            return [('mk', r), ('add', cls, 'addSchemaDependency', f, r)]
        if ver == D3 and kind == 'String':
            return [('add', cls, 'addPropertyDependency', f, T('strv', v))]
        return 'throw'
    x.loops[T('objv', V('dependencies'))] = it
    x.loops['nested'] = lambda pos, el, kind: [('push', T('strv', el))] if kind == 'String' else 'throw'


@kw('type')
def _(x, ver, k, pres):
    cls = 'TypeConstraint'

    def one(v, kind, path):
        if kind == 'String':
            return [('add', cls, 'addNamedType', T('jsonType', T('strv', v)))]
        if kind == 'Object' and ver == D3:
            r = mkterm(v, path)
            return [('mk', r), ('add', cls, 'addSchemaType', r)]
        return None
    if k == 'Array':
        x.add(cls=cls)

        def it(pos, el, kind):
            w = one(el, kind, P('/type/', idx(pos)))
            return w if w is not None else 'throw'
        x.loops[T('arr', V('type'))] = it
        return
    w = one(V('type'), k, P('/type'))
    if w is None:
        if k.startswith('Text'):
            x.open = True
        else:
            x.throw.append('type is %s' % k)
        return
    x.add(cls=cls)
    x.cons[-1]['adds'] = [e for e in w if e[0] == 'add']
    x.events += [e for e in w if e[0] == 'mk']
    if ver == D4 and k == 'String':
        x.may.append("'any' in draft 4")


@kw('uniqueItems')
def _(x, ver, k, pres):
    if k in ('Bool', 'Text of a boolean'):
        x.add(cls='UniqueItemsConstraint', cond=T('boolv', V('uniqueItems')))
    else:
        x.throw.append('uniqueItems is %s' % k)


def expect(ver, present):
    x = Exp()
    x.delegate = False
    for n, k in present.items():
        f = KEYWORD.get(n)
        if f:
            if n in ('$id', 'id') and (n == '$id') != (ver == D7):
                continue
            f(x, ver, k, present)
    return x


class Scenario(Parser):
    """One scenario: interpretation and comparison with the specification.
    full: also compare where nested schemas come from (path, scope, owner)."""

    def __init__(self, prog, version, present, full, scope=False, custom=False):
        Parser.__init__(self, prog, version, present, custom)
        self.full = full
        self.scoped = scope
        self.exp = expect(version, present)
        self.loops = self.exp.loops
        self.what = '%s with %s' % (version[1:], ', '.join('%s: %s' % p for p in sorted(present.items())) if len(present) < 5 else '%d keywords' % len(present))
        self.addloc = {}

    # ------------------------------------------------------------ comparison
    def mkeq(self, st, a, w):
        if a[2] != w[2]:
            return False
        if not self.full:
            return True
        return self.origin(st, a, w) is None

    def origin(self, st, a, w):
        _, _, nd, path, scope, root, parent, own = a
        if path != w[3]:
            return 'its path is %s instead of %s' % (show(path), show(w[3]))
        if root != ROOTN:
            return 'references in it are resolved against another document root'
        m = self.scope_msg(st, scope)
        if m:
            return m
        if self.version == D3 and w[6] != T('any'):
            if w[6] == T('none'):
                if parent != NULL and own != NULL:
                    return 'it is parsed as a property of the enclosing object'
            elif parent != SUB or own != w[6][2]:
                return 'it is not parsed as the property %s of the enclosing object' % show(w[6][2])
        return None

    def scope_msg(self, st, scope):
        kid = '$id' if self.version == D7 else 'id'
        i = T('strv', V(kid))
        base = T('base') if self.scoped else None
        has, v = (getf(scope, 'has'), getf(scope, 'val')) if scope[0] == 'obj' else (None, None)
        if has is None:
            return None
        if self.present.get(kid) != 'String':
            want = [base]
        elif base is None:
            want = [i]
        else:
            a, u = st.facts.get(T('isUriAbsolute', i)), st.facts.get(T('isUrn', i))
            want = []
            if a is not False or u is not False:
                want.append(i) if a or u else None
            want.append(T('resolveRelativeUri', base, i))
        got = v if has == TRUE else None
        if got not in want:
            return 'its scope is %s instead of %s' % (show(got) if got else 'empty', show(want[0]) if want and want[0] else 'empty')
        return None

    def veq(self, st, a, w):
        """Actual value against expected value."""
        if a == w:
            return True
        if w[0] == 't' and w[1] == 'mk':
            if a[0] == 't' and a[1] == 'mk':
                return self.mkeq(st, a, w)
            return False
        if w[0] == 't' and w[1] == 'names':
            b = a
            while b[0] == 't' and b[1] in ('push', 'grown'):
                b = b[2]
            return b[0] in ('t', 'list', 'obj') and not mentions(b, lambda x: x == NODE)
        if w == EMPTY and a[0] == 't' and a[1] == 'mk' and self.version == D7 and st.facts.get(isx(a[2], 'Bool')):
            return True
        return eqv(st, a, w)

    def same(self, E, st, a, b):
        if a[0] == 'mk' and b[0] == 'mk':
            return self.mkeq(st, a[1], b[1])
        if a[0] == 'add' and b[0] == 'add':
            return a[1][2] == b[1] and a[2] == b[2] and len(a) == len(b) and all(self.veq(st, x, y) for x, y in zip(a[3:], b[3:]))
        return Parser.same(self, E, st, a, b)

    def iteration(self, E, st, coll, pos, evs):
        if coll == BUILDERS or coll[0] != 't' or coll[1] not in ('arr', 'objv'):
            return
        self.its += 1
        f = self.loops.get(coll)
        if f is None and coll[1] == 'arr':
            f = self.loops.get('nested')
        if f is None:
            if evs and not self.exp.open:
                self.undecided.add(('loop', '', 'unexpected loop over %s' % show(coll)[:60]))
            return
        kind = st.facts.get(T('at', coll, pos))
        if self.exp.open or kind is None or kind is True:
            return
        el = T('elem', coll, pos)
        want = f(pos, el, kind)
        if want == 'throw':
            if not self.full:
                self.report('element', self.where, '%s: an element of kind %s of %s is accepted' % (self.what, kind, show_kw(coll)), st)
            return
        if want[0] == 'reject':
            want = want[1]
        if self.full:
            for e in evs:
                if e[0] == 'mk':
                    for w in want:
                        if w[0] == 'mk' and w[1][2] == e[1][2]:
                            m = self.origin(st, e[1], w[1])
                            if m:
                                self.report('origin', self.where, '%s: nested schema of %s: %s' % (self.what, show_kw(coll), m), st)
            return
        self.match(E, st, [e for e in evs if e[0] != 'mk'], [e for e in want if e[0] != 'mk'], 'an element of kind %s of %s' % (kind, show_kw(coll)))
        if kind == 'Array' and 'nested' in self.loops:
            arr = T('arr', T('.', 'second', el))
            if not st.mon.get(('end', arr)) and not E.known_empty(st, arr):
                self.report('element', self.where, '%s: not all names of a list are added' % self.what, st)
            for e in evs:
                if e[0] == 'add' and len(e) > 4 and E.known_empty(st, arr) and not (e[4][0] == 'list' and not e[4][1] or e[4][0] == 't' and e[4][1] == 'new' or e[4][0] == 'obj'):
                    self.report('element', self.where, '%s: an empty list of names yields %s' % (self.what, show(e[4])[:100]), st)

    # ---------------------------------------------------------------- verdict
    def conclude(self, E, outs, thrown):
        x = self.exp
        if x.open:
            return
        for s, exc in thrown:
            if self.full:
                continue
            cur = [k for k in s.mon if k[0] == 'cur' and k[1][0] == 't' and k[1][1] in ('arr', 'objv') and k[1] != OBJ]
            ok = bool(x.throw or x.may)
            for k in cur:
                f = x.loops.get(k[1]) or x.loops.get('nested')
                kind = s.facts.get(T('at', k[1], k[2]))
                if f is None or kind is None:
                    ok = True
                    continue
                w = f(k[2], T('elem', k[1], k[2]), kind)
                if w == 'throw' or w[0] == 'reject' or kind == 'String' and self.version == D4 and self.present.get('type') == 'Array':
                    ok = True
            for c in x.cons:
                t = c['cond']
                if t is not None and t[1] == 'int':
                    _, r = E.rel_set(s, t, I(0))
                    if '<' in r:
                        ok = True
            if not ok:
                el = ''
                if cur:
                    el = ' with an element of kind %s' % s.facts.get(T('at', cur[-1][1], cur[-1][2]))
                self.report('rejected', self.where, '%s%s is rejected' % (self.what, el), s)
        for s, v in outs:
            top = s.mon.get('top', ())
            if x.throw:
                if not self.full and not (x.delegate and any(e[0] == 'mk' for e in top)):
                    self.report('accepted', self.where, 'accepted although %s' % x.throw[0], s)
                continue
            if self.full:
                for e in top:
                    if e[0] == 'mk':
                        for w in x.events:
                            if w[0] == 'mk' and w[1][2] == e[1][2]:
                                m = self.origin(s, e[1], w[1])
                                if m:
                                    self.report('origin', self.where, '%s: nested schema: %s' % (self.what, m), s)
                continue
            self.outcome(E, s, top)

    def outcome(self, E, s, top):
        x = self.exp
        want = []
        for c in x.cons:
            t = c['cond']
            if t is not None and t[1] == 'int':
                _, r = E.rel_set(s, t, I(0))
                if '<' in r:
                    self.report('negative', self.where, '%s: a negative value is accepted' % self.what, s)
            if t is not None and t[1] == 'boolv':
                f = s.facts.get(t)
                if f is False:
                    continue
                if f is None:
                    self.report('boolean', self.where, '%s: the value of %s is not consulted' % (self.what, show_kw(t[2])), s)
                    continue
            want.append(c)
        got = [e for e in top if e[0] == 'addc']
        left = list(got)
        for c in want:
            m = [e for e in left if e[1][0] == 'obj' and e[1][1] == c['cls'] and self.sets_eq(s, e[1], c)]
            if not m:
                near = [e for e in left if e[1][0] == 'obj' and e[1][1] == c['cls']]
                if near:
                    self.report('value', self.where, '%s: the %s has %s instead of %s' % (self.what, c['cls'], sets_show(near[0][1]), ', '.join('%s=%s' % (k, show(v)[:80]) for k, v in sorted(c['sets'].items()))), s)
                    left.remove(near[0])
                else:
                    self.report('missing', self.where, '%s: no %s is added' % (self.what, c['cls']), s)
                continue
            e = m[0]
            left.remove(e)
            if e[2] != c['to']:
                self.report('target', self.where, '%s: the %s is added to %s' % (self.what, c['cls'], show(e[2])), s)
            cid = getf(e[1], 'cid')
            if s.mon.get(('added', cid)) and getf(e[1], 'adds') != TRUE:
                self.report('lost', self.where, '%s: what is added to the %s is lost' % (self.what, c['cls']), s)
            adds = [a for a in top if a[0] == 'add' and a[1] == cid]
            self.match(E, s, adds, list(c['adds']), c['cls'])
        for e in left:
            self.report('extra', self.where, '%s: an unexpected %s is added' % (self.what, e[1][1] if e[1][0] == 'obj' else show(e[1])[:60]), s)
        ev = [e for e in top if e[0].startswith('set')]
        self.match(E, s, ev, [e for e in x.events if e[0].startswith('set')], 'annotations')
        for coll in x.loops:
            if coll == 'nested':
                continue
            if not s.mon.get(('end', coll)) and not E.known_empty(s, coll):
                self.report('incomplete', self.where, '%s: not all elements of %s are processed' % (self.what, show_kw(coll)), s)
            st0 = s.mon.get(('start', coll))
            if st0 is not None and st0 != I(0):
                self.report('incomplete', self.where, '%s: the first elements of %s are skipped' % (self.what, show_kw(coll)), s)

    def sets_eq(self, st, v, c):
        d = {n: x for n, x in v[3] if n not in ('cid', 'adds')}
        for n, w in c['sets'].items():
            a = d.pop(n, None)
            if w[0] == 'if':
                f = st.facts.get(w[1])
                if f is None or (a is not None and a != NULL) != f or (f and not self.veq(st, a, w[2])):
                    return False
            elif a is None:
                if w != FALSE:
                    return False
            elif not self.veq(st, a, w):
                return False
        return all(x == NULL or x == FALSE for x in d.values())


def sets_show(v):
    return ', '.join('%s=%s' % (n, show(x)[:80]) for n, x in v[3] if n not in ('cid', 'adds')) or 'nothing set'


def show_kw(t):
    r = []
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            if len(x) == 3 and x[:2] == ('t', 'find') and x[2][0] == 's':
                r.append(x[2][1])
            stack.extend(x)
    return r[0] if r else show(t)[:40]


def run_scenario(prog, adapter, ver, present, full=False, scope=False, empty=False):
    c = Scenario(prog, ver, present, full, scope)

    def setup(E, st):
        kindfacts(st, NODE, 'Object')
        for k, v in present.items():
            kindfacts(st, V(k), v)
            if empty and v in ('Array', 'Object'):
                t = T('size', T('arr' if v == 'Array' else 'objv', V(k)))
                for s in E.assume_true(st, E.compare(st, '==', t, I(0), False, True))[:1]:
                    st.facts.update(s.facts)
            if empty and v == 'Integer':
                for s in E.assume_true(st, E.compare(st, '>', T('int', V(k)), I(0)))[:1]:
                    st.facts.update(s.facts)
        for s in E.assume_true(st, E.compare(st, '==', T('size', BUILDERS), I(0), False, True))[:1]:
            st.facts.update(s.facts)
        st.store[('sym', SCOPE)] = obj('opt', has=TRUE, val=T('base')) if scope else obj('opt', has=FALSE)
    E, outs, thrown = run_populate(prog, adapter, c, setup)
    for s, v in outs:
        if s.taint:
            c.undecided.add(('taint', '', '; '.join(sorted(s.taint))))
    c.conclude(E, [o for o in outs if not o[0].taint], [t for t in thrown if not t[0].taint])
    if not outs and not c.exp.throw and not c.exp.open and not c.exp.may:
        c.report('rejected', c.where, '%s is always rejected' % c.what, State())
    return c, outs, thrown


# ------------------------------------------------------------------ scenarios
def good(ver, tuple_form=False):
    """A kind under which every keyword of a version is accepted."""
    g = {'type': 'Array', 'allOf': 'Array', 'anyOf': 'Array', 'oneOf': 'Array', 'not': 'Object', 'contains': 'Object', 'const': 'Null',
         'propertyNames': 'Object', 'if': 'Object', 'then': 'Object', 'else': 'Object', 'dependencies': 'Object', 'description': 'String',
         'title': 'String', 'enum': 'Array', 'format': 'String', 'pattern': 'String', 'items': 'Array' if tuple_form else 'Object',
         'additionalItems': 'Object', 'properties': 'Object', 'patternProperties': 'Object', 'additionalProperties': 'Object',
         'maxItems': 'Integer', 'minItems': 'Integer', 'maxLength': 'Integer', 'minLength': 'Integer', 'maxProperties': 'Integer',
         'minProperties': 'Integer', 'maximum': 'Integer', 'minimum': 'Double', 'exclusiveMaximum': 'Bool', 'exclusiveMinimum': 'Bool',
         'multipleOf': 'Integer', 'required': 'Array', 'uniqueItems': 'Bool', '$id': 'String', 'id': 'String', 'extends': 'Array', 'divisibleBy': 'Integer'}
    if ver == D7:
        g.update(exclusiveMaximum='Double', exclusiveMinimum='Integer')
        drop = ('id', 'extends', 'divisibleBy')
    elif ver == D4:
        drop = ('$id', 'extends', 'divisibleBy', 'contains', 'const', 'propertyNames', 'if', 'then', 'else')
    else:
        g['required'] = 'Bool'
        drop = ('$id', 'multipleOf', 'allOf', 'anyOf', 'oneOf', 'not', 'contains', 'const', 'propertyNames', 'if', 'then', 'else')
    for d in drop:
        g.pop(d)
    return g


GROUPS = [('items', 'additionalItems'), ('properties', 'patternProperties', 'additionalProperties'), ('if', 'then', 'else'),
          ('maximum', 'exclusiveMaximum'), ('minimum', 'exclusiveMinimum')]


def scenarios(tier):
    """(version, {keyword: kind}, empty containers)"""
    import itertools
    for ver in VERSIONS:
        for name in sorted(KEYWORD):
            for k in BASE:
                yield ver, {name: k}, False
        for g in GROUPS:
            kinds = [None] + (list(BASE) if len(g) == 2 else ['Object', 'Bool', 'Null', 'Array'])
            for ks in itertools.product(kinds, repeat=len(g)):
                d = {n: k for n, k in zip(g, ks) if k}
                if len(d) > 1:
                    yield ver, d, False
        for tf in (False, True):
            g = good(ver, tf)
            yield ver, g, True
            for n in sorted(g):
                yield ver, {m: k for m, k in g.items() if m != n}, True
            for a, b in itertools.combinations(sorted(g), 2):
                if tf and 'items' not in (a, b):
                    continue
                yield ver, {a: g[a], b: g[b]}, tier == 'quick'
        if tier == 'thorough':
            g = good(ver)
            for a, b in itertools.permutations(sorted(g), 2):
                for k in ('Null', 'Bool', 'Double', 'String', 'Object', 'Array'):
                    if k != g[a]:
                        yield ver, {a: k, b: g[b]}, True
            rng = __import__('random').Random(1)
            for _ in range(600):
                yield ver, {n: k for n, k in g.items() if rng.random() < 0.5}, True


_work = {}


def _one(i):
    prog, adapter, items = _work['x']
    ver, present, empty, full, scope = items[i]
    try:
        c, outs, thrown = run_scenario(prog, adapter, ver, present, full, scope, empty)
    except AnalysisError as e:
        return i, None, str(e), [], 0, set()
    return i, [(k, l, m, t) for k, l, m, t in c.viol], None, sorted(str(u[2] if len(u) > 2 else u) for u in c.undecided), len(outs) + len(thrown), set(c.sites)


def run_all(res, prog, adapter, items, label):
    import multiprocessing as mp
    _work['x'] = (prog, adapter, items)
    paths = 0
    with mp.get_context('fork').Pool(min(8, os.cpu_count() or 1)) as pool:
        for i, viol, err, und, n, sites in pool.imap_unordered(_one, range(len(items)), chunksize=16):
            ver, present = items[i][:2]
            name = '%s %s' % (ver[1:], '+'.join(sorted(present)) if len(present) < 5 else '%d keywords' % len(present))
            if err:
                res.undec('%s: %s' % (name, err))
                continue
            for u in und:
                res.undec('%s: %s' % (name, u))
            paths += n
            for k, loc, m, t in viol:
                res.violation('%s/%s' % (k, m), loc, m, t)
    res.unit('%s: %d scenarios' % (label, len(items)), len(items))
    res.count('paths', paths)


def lenient_adapter(prog):
    for a in ('NlohmannJsonAdapter', 'GenericRapidJsonAdapter', 'JsonCppAdapter'):
        if populate(prog, a) is not None:
            return a
    raise AnalysisError('populateSchema is not instantiated')


def mapping(res, tier):
    prog = ir.load()
    a = lenient_adapter(prog)
    items = [(v, p, e, False, False) for v, p, e in scenarios(tier)]
    run_all(res, prog, a, items, a)
    if tier == 'thorough':
        for b in ADAPTERS:
            if b != a and populate(prog, b) is not None:
                run_all(res, prog, b, [(v, p, e, False, False) for v, p, e in scenarios('quick') if len(p) != 2], b)
    nonobject(res, prog, a)
    unowned(res, prog, a)
    builders(res, prog, a)


ADAPTERS = ('GenericRapidJsonAdapter', 'BoostJsonAdapter', 'Json11Adapter', 'JsonCppAdapter', 'PicoJsonAdapter', 'PocoJsonAdapter',
            'PropertyTreeAdapter', 'QtJsonAdapter', 'QtVariantAdapter', 'YamlCppAdapter')


ABSENT = ({'parentSubschema': NULL, 'ownName': NULL}, {'ownName': NULL}, {'parentSubschema': NULL})


def nonobject(res, prog, a, absent=ABSENT):
    """A schema that is not an object."""
    for ver in VERSIONS:
        for kind in BASE:
            if kind == 'Object':
                continue
            def setup(E, st):
                kindfacts(st, NODE, kind)
            c = Parser(prog, ver, {})
            E, outs, thrown = run_populate(prog, a, c, setup)
            for o in absent:
                _, o1, t1 = run_populate(prog, a, c, setup, o)
                outs, thrown = outs + o1, thrown + t1
            outs = [o for o in outs if not o[0].taint]
            res.unit('%s schema of kind %s' % (ver[1:], kind), 4)
            what = '%s: a schema of kind %s' % (ver[1:], kind)
            if ver == D7 and kind in ('Bool', 'Text of a boolean'):
                for s, e in thrown:
                    if kind == 'Bool':
                        res.violation('bool/%s' % what, c.where, '%s is rejected' % what, s.path())
                for s, v in outs:
                    b = s.facts.get(T('boolv', NODE))
                    want = ((('setAlwaysInvalid', SUB, TRUE),) if b is False else ())
                    top = tuple(e for e in s.mon.get('top', ()))
                    if b is None or top != want:
                        res.violation('bool/%s' % what, c.where, '%s that is %s: %s' % (what, b, '; '.join(describe(e) for e in top) or 'nothing is recorded'), s.path())
                if not outs and not thrown:
                    res.undec(what)
            else:
                for s, v in outs:
                    res.violation('kind/%s' % what, c.where, '%s is accepted' % what, s.path())


def unowned(res, prog, a, absent=ABSENT):
    """Draft 3 'required' in a schema that describes no property."""
    for o in absent:
        c = Scenario(prog, D3, {'required': 'Bool'}, False)

        def setup(E, st):
            kindfacts(st, NODE, 'Object')
            kindfacts(st, V('required'), 'Bool')
            for s in E.assume_true(st, E.compare(st, '==', T('size', BUILDERS), I(0), False, True))[:1]:
                st.facts.update(s.facts)
            st.store[('sym', SCOPE)] = obj('opt', has=FALSE)
        E, outs, thrown = run_populate(prog, a, c, setup, o)
        res.unit('Draft3 required without a property', 1)
        for s, v in outs:
            if s.taint:
                continue
            for e in s.mon.get('top', ()):
                if e[0] == 'addc':
                    res.violation('unowned', c.where, "Draft3: 'required' of a schema that describes no property adds a constraint to %s" % show(e[2]), s.path())


def builders(res, prog, a):
    """User-defined keywords: every builder whose keyword is present makes a
    constraint from that value and the constraint is added."""
    for ver in VERSIONS:
        c = Builders(prog, ver)

        def setup(E, st):
            kindfacts(st, NODE, 'Object')
            st.store[('sym', SCOPE)] = obj('opt', has=FALSE)
        E, outs, thrown = run_populate(prog, a, c, setup)
        outs = [o for o in outs if not o[0].taint]
        if not c.its:
            raise AnalysisError('no iteration over the constraint builders')
        res.unit('%s user-defined keywords' % ver[1:], max(1, len(outs)))
        for k, l, m, t in c.viol:
            res.violation('builder/%s' % m, c.where, '%s: %s' % (ver[1:], m), t)
        for s, v in outs:
            if not s.mon.get(('end', BUILDERS)) and not E.known_empty(s, BUILDERS):
                res.violation('builder/incomplete', c.where, 'not all user-defined keywords are considered', s.path())
            st0 = s.mon.get(('start', BUILDERS))
            if st0 is not None and st0 != I(0):
                res.violation('builder/first', c.where, 'the first user-defined keyword is skipped', s.path())


class Builders(Parser):
    def __init__(self, prog, version):
        Parser.__init__(self, prog, version, {}, True)
        self.what = version[1:]

    def event(self, st, ev):
        self.nevents += 1
        cur = [k for k in st.mon if k[0] == 'cur' and k[1] == BUILDERS]
        if cur:
            st.mon[cur[-1]] = st.mon[cur[-1]] + (ev,)
        else:
            st.mon['top'] = st.mon.get('top', ()) + (ev,)

    def iteration(self, E, st, coll, pos, evs):
        if coll != BUILDERS:
            return
        self.its += 1
        el = T('elem', coll, pos)
        name = T('.', 'first', el)
        has = st.facts.get(T('has', OBJ, name))
        want = T('.', 'second', T('elem', OBJ, T('find', name)))
        makes = [e for e in evs if e[0] == 'build']
        adds = [e for e in evs if e[0] == 'addc']
        if has is None:
            self.report('builder', self.where, 'the presence of a user-defined keyword is not tested', st)
        elif has is False:
            if makes or adds:
                self.report('builder', self.where, 'a constraint is made for an absent user-defined keyword', st)
        elif len(makes) != 1 or makes[0][2] != want or not mentions(makes[0][1], lambda x: x == el):
            self.report('builder', self.where, 'a user-defined keyword that is present is not given to its builder exactly once', st)
        elif len(adds) != 1 or adds[0][2] != SUB or adds[0][1] != makes[0][1] and adds[0][1] != T('*', makes[0][1]):
            self.report('builder', self.where, 'the constraint of a user-defined keyword is not added to the schema: %s' % '; '.join(describe(e) for e in adds), st)


def origins(res, tier):
    """Where nested schemas come from (path, scope, document root, owner)."""
    prog = ir.load()
    a = lenient_adapter(prog)
    items = []
    for v, p, e in scenarios('quick'):
        if len(p) == 2 and not any(set(p) <= set(g) for g in GROUPS) and not ('$id' in p or 'id' in p):
            continue
        if expect(v, p).throw and len(p) > 1:
            continue
        for scope in (False, True):
            items.append((v, p, e, True, scope))
    run_all(res, prog, a, items, a)
