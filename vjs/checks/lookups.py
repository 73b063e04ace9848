"""Splitting of references, scopes of identifiers, and the searches of a
document for an identifier and for the scope of a path."""
from ..engine import *
from ..visitor import *
from ..models import strv, val, cat
from .. import ir
from .parse import *
from .refs import Refs, known, str_known_empty, NAMES
from .visit import rels

REF = T('ref')
TARGET = T('target')
NPOS = I(2 ** 64 - 1)
BASE, DOC, ID = T('base'), T('doc'), T('id')
OPT0 = obj('opt', has=FALSE)


def opt(v):
    return obj('opt', has=TRUE, val=v)


def entry(prog, name, adapter=None):
    for q, fs in prog.by_q.items():
        if q.endswith('::' + name) and 'valijson' in q:
            for f in fs:
                if f.get('body') is not None and (adapter is None or any(adapter in t for t in f.get('targs') or ())):
                    return f
    return None


def interpret(prog, f, args, this=None, version=D7, check=None, prep=None):
    c = check or Refs(prog, version, f)
    st = State()
    st.store[('sym', T('parser'))] = obj('SchemaParser', m_version=I(int(version_value(prog, version))), constraintBuilders=BUILDERS)
    if prep:
        prep(st)
    E = Engine(prog, c)
    outs, thrown = E.run(f, st, this, args)
    return c, E, outs, thrown


# ------------------------------------------------------------ text references
def ispos(t, names=('find', 'find_first_of')):
    return t[0] == 't' and t[1] == 'call' and t[2].split('::')[-1] in names and t[2].startswith('std::basic_string::') and \
        t[3] == REF and t[4] in (I(35), S('#')) and t[5:] in ((), (I(0),), (NPOS,), (I(-1),))


def islast(t):
    return ispos(t, ('rfind', 'find_last_of'))


def split_case(st, case):
    """Whether the path is possible when '#' is at the start / later / absent."""
    for a, v in st.facts.items():
        if not mentions(a, ispos):
            if mentions(a, lambda x: x == REF):
                return None
            continue
        if a[0] != 'rel':
            return None
        l, r = a[1], a[2]
        flip = False
        if ispos(l):
            l, r, flip = r, l, True
        if l[0] != 'i' or not ispos(r):
            return None
        # relation of constant l to the position
        pos = {'start': (0, 0), 'later': (1, 2 ** 62), 'absent': (NPOS[1], NPOS[1])}[case]
        k = l[1]
        if k == -1:
            k = NPOS[1]
        poss = set()
        for p in pos:
            poss.add('<' if k < p else '>' if k > p else '=')
        if pos[0] < k < pos[1]:
            poss.add('=')
        if flip:
            poss = {{'<': '>', '>': '<'}.get(x, x) for x in poss}
        if not (set(v) & poss):
            return False
    return True


def is_pos_plus(t, k):
    if k == 0:
        return ispos(t)
    return t[0] == 't' and t[1] == 'add' and (ispos(t[2]) and t[3] == I(k) or ispos(t[3]) and t[2] == I(k))


def text_of(v, case):
    """'whole', 'before', 'after' or 'empty': the part of the reference in v."""
    if v == REF:
        return {'absent': 'whole'}.get(case, 'everything')
    if v == S(''):
        return 'nothing'
    if v[0] == 't' and v[1] == 'substr' and v[2] == REF:
        a, b = v[3], v[4] if len(v) > 4 else NPOS
        if a == I(0) and ispos(b):
            return {'absent': 'whole', 'later': 'before', 'start': 'nothing'}[case]
        if is_pos_plus(a, 1) and case != 'absent' and b in (NPOS, I(-1)):
            return 'after'
        if case == 'absent' or not all(edge(x) for x in (a, b)):
            return None
        return 'the characters from %s, at most %s of them' % (edge(a), edge(b))
    return None


def edge(t):
    if t[0] == 'i':
        return 'all' if t in (NPOS, I(-1)) else str(t[1])
    if ispos(t):
        return 'the #'
    if t[0] == 't' and t[1] == 'add' and len(t) == 4:
        for x, k in ((t[2], t[3]), (t[3], t[2])):
            if ispos(x) and k[0] == 'i':
                return 'the # %+d' % k[1]
    return None


def splitting(res, prog):
    want = {'getJsonReferenceUri': {'start': None, 'later': 'before', 'absent': 'whole'},
            'getJsonReferencePointer': {'start': 'after', 'later': 'after', 'absent': None}}
    for name, w in want.items():
        f = entry(prog, name)
        res.need(f is not None, name)
        c, E, outs, thrown = interpret(prog, f, [ptr(('sym', REF))])
        for st, v in outs:
            v = E.snap(st, v)
            if mentions(v, islast) or any(mentions(a, islast) for a in st.facts):
                res.violation('%s/last' % name, f['loc'], '%s looks for the last # of a reference' % name, st.path())
                continue
            for case in ('start', 'later', 'absent'):
                p = split_case(st, case)
                if p is None or st.taint:
                    res.undec('%s: path not understood' % name)
                    break
                if not p:
                    continue
                when = {'start': 'starts with #', 'later': 'has a # after the start', 'absent': 'has no #'}[case]
                if v[0] != 'obj':
                    res.undec('%s: result %s' % (name, show(v)[:80]))
                    continue
                has = getf(v, 'has')
                if has == FALSE:
                    got = None
                else:
                    got = text_of(getf(v, 'val'), case)
                    if got is None:
                        res.undec('%s: result %s' % (name, show(v)[:80]))
                        continue
                if got != w[case]:
                    res.violation('%s/%s' % (name, case), f['loc'], '%s yields %s of a reference that %s instead of %s' % (
                        name, got or 'no part', when, w[case] or 'no part'), st.path())
        res.unit('%s: %d paths' % (name, len(outs)), len(outs))


# -------------------------------------------------------------------- escaping
class Escape(VCheck):
    def __init__(self, prog, f):
        VCheck.__init__(self, prog)
        self.reset()
        self.f, self.iters = f, 0

    def hook(self, E, st, c, this, args, node):
        if c['sq'].startswith('std::basic_string::') and c['n'] in ('append', 'push_back', 'operator+=') and args:
            st = st.copy()
            v = args[1] if c['n'] == 'append' and len(args) == 2 and args[0][0] == 'i' else val(E, st, args[0])
            self.event(st, ('app', v, True))
            return self.passthru(E, st, c, this, args, node)
        return None

    def iteration(self, E, st, coll, pos, evs):
        self.iters += 1
        el = T('elem', coll, pos)
        apps = [e[1] for e in evs if e[0] == 'app']
        cases = []
        codes = ((126, '~0'), (47, '~1'), (37, '%25'))
        for code, w in codes:
            if '=' in rels(st, el, I(code)) and not any(rels(st, el, I(k)) == ['='] for k, _ in codes if k != code):
                cases.append((S(w), 'the character %r' % chr(code)))
        if not any(rels(st, el, I(k)) == ['='] for k, _ in codes):
            cases.append((el, 'any other character'))
        for want, what in cases:
            got = None
            for a in apps:
                got = a if got is None else cat(got, a)
            if got != want:
                self.report('escape/' + what, self.f['loc'], '%s of a member name becomes %s in the path of its value' % (what, show(got) if got else 'nothing'), st)


def escaping(res, prog):
    n = 0
    for q, fs in prog.by_q.items():
        if 'SchemaParser::' not in q:
            continue
        for f in fs:
            if f.get('body') is None or not is_escaper(f):
                continue
            n += 1
            c = Escape(prog, f)
            try:
                c2, E, outs, thrown = interpret(prog, f, [ptr(('sym', T('token')))], check=c)
            except AnalysisError as e:
                res.undec('escaping: %s' % e)
                continue
            for k, l, m, t in c.viol:
                res.violation(k, l, m, t)
            res.unit('%s: %d iterations' % (q, c.iters), c.iters)
            if not c.iters:
                res.undec('escaping: no iteration over the characters of a name')
    if not n:
        res.undec('no function escapes member names')


# ---------------------------------------------------------------------- scopes
def absolute(E, st, u):
    a, b = known(E, st, T('isUriAbsolute', u)), known(E, st, T('isUrn', u))
    if a or b:
        return True
    return False if a is False and b is False else None


def resolved_against(E, st, scope, u):
    """Admissible values of `u` within scope (None: no scope)."""
    if scope is None:
        return [u]
    r = T('resolveRelativeUri', scope, u)
    a = absolute(E, st, u)
    if a is None:
        E.check.relies = True
    return [u, r] if a else [r]


def scoping(res, prog, relies):
    f = entry(prog, 'resolveDocumentUri')
    res.need(f is not None, 'resolveDocumentUri')
    n = 0
    for scope in (True, False):
        for doc in (True, False):
            def prep(st):
                st.store[('sym', SCOPE)] = opt(BASE) if scope else OPT0
                st.store[('sym', DOC)] = opt(T('docuri')) if doc else OPT0
            c, E, outs, thrown = interpret(prog, f, [ptr(('sym', SCOPE)), ptr(('sym', DOC))], ptr(('sym', T('parser'))), prep=prep)
            for st, v in outs:
                n += 1
                relies = relies or getattr(c, 'relies', False)
                v = E.snap(st, v)
                if st.taint:
                    res.undec('resolveDocumentUri: %s' % sorted(st.taint)[0])
                    continue
                if doc:
                    ok = [opt(x) for x in resolved_against(E, st, BASE if scope else None, T('docuri'))]
                else:
                    ok = [opt(BASE) if scope else OPT0]
                if v not in ok:
                    res.violation('document/%s/%s' % (scope, doc), f['loc'], 'the document named by a reference %s a URI, %s a resolution scope, is %s instead of %s' % (
                        'with' if doc else 'without', 'within' if scope else 'without', show(v)[:100], show(ok[0])[:100]), st.path())
            for st in thrown:
                res.violation('document throws', f['loc'], 'naming a document fails', st.path() if hasattr(st, 'path') else [])
    res.unit('resolveDocumentUri: %d paths' % n, n)
    f = entry(prog, 'resolveRelativeUri')
    res.need(f is not None, 'resolveRelativeUri')
    try:
        c = Trivial(prog, D7, f)
        c, E, outs, thrown = interpret(prog, f, [ptr(('sym', BASE)), ptr(('sym', T('docuri')))], check=c)
    except (AnalysisError, TooBig) as e:
        res.undec('resolveRelativeUri: %s' % e)
        return
    u = T('docuri')
    for k, l, m, t in c.viol:
        if relies:
            res.violation(k, f['loc'], m, t)
    for st, v in outs:
        v = E.snap(st, val(E, st, v) if v[0] == 'ptr' else v)
        a = absolute(E, st, u)
        emp = str_known_empty(E, st, u)
        if emp:
            if v != BASE and v != cat(BASE, u) and not st.taint:
                res.violation('relative/empty', f['loc'], 'an empty reference resolves to %s' % show(v)[:100], st.path())
        elif a:
            if v != u and not st.taint:
                res.violation('relative/absolute', f['loc'], 'an absolute URI resolves to %s' % show(v)[:100], st.path())
        elif v == u and a is None and emp is None:
            res.violation('relative/untested', f['loc'], 'a reference is taken as absolute without a test', st.path())
    res.unit('resolveRelativeUri: %d paths (absolute and empty references)' % len(outs), len(outs))


class Trivial(Refs):
    general = 0

    def hook(self, E, st, c, this, args, node):
        if c['sq'].startswith('valijson::internal::uri::') and c['n'] not in ('isUriAbsolute', 'isUrn') or \
                c['sq'].startswith('std::basic_string::') and c['n'] in ('find', 'rfind', 'find_last_of', 'find_first_of', 'substr', 'erase'):
            self.general += 1
            a = absolute(E, st, T('docuri'))
            if a is not False:
                self.report('relative/general', self.where, 'an absolute URI is resolved as a relative reference', st)
            return []           # the general case is not followed
        return Refs.hook(self, E, st, c, this, args, node)


# -------------------------------------------------------------------- searches
class Search(Refs):
    def __init__(self, prog, version, f, name):
        Refs.__init__(self, prog, version, f)
        self.name = name

    def hook(self, E, st, c, this, args, node):
        if c['n'] == self.name and c.get('cls') == 'SchemaParser' and E.frames:
            d = self.argmap(E, st, c, args)
            t = T('visit', self.snapv(E, st, d['node']), self.snapv(E, st, d['currentScope']),
                  strv(E, st, d['targetUri' if 'targetUri' in d else 'targetPath']), strv(E, st, d['nodePath']))
            out = []
            for s, ok in E.truth(st, T('has', t)):
                s = s.copy()
                self.event(s, ('visit', t, ok))
                s.mon['last'] = (t, ok)
                if ok:
                    if 'foundPath' in d:
                        E.storev(s, d['foundPath'][1], T('.', 'path', t), node)
                    E.storev(s, d['foundScope'][1], T('.', 'scope', t), node)
                out.append((s, B(ok)))
            return out
        return Refs.hook(self, E, st, c, this, args, node)

    def expected_scope(self, E, st):
        """Admissible scopes of the members of the node; and whether it has an identifier."""
        kw = '$id' if self.version == D7 else 'id'
        v = V(kw)
        if known(E, st, isx(NODE, 'Object')) is False:
            return [self.scope], False
        h = known(E, st, T('has', OBJ, S(kw)))
        if h is False:
            return [self.scope], False
        m, i = known(E, st, maybex(v, 'String')), known(E, st, isx(v, 'String'))
        if h is None:
            return None, None
        if m is False or i is False and m is not True:
            return [self.scope], False
        u = T('strv', v)
        r = [opt(x) for x in resolved_against(E, st, BASE if self.scoped else None, u)]
        if i or m and i is None:
            return r, True
        if i is False:
            return r + [self.scope], None
        return None, None

    def iteration(self, E, st, coll, pos, evs):
        self.its += 1
        if coll == OBJ:
            el = T('elem', coll, pos)
            child, path = T('.', 'second', el), cat(cat(NPATH, S('/')), T('esc', T('.', 'first', el)))
        elif coll == T('arr', NODE):
            child = T('elem', coll, pos)
            path = None
        else:
            return
        vis = [e[1] for e in evs if e[0] == 'visit']
        if len(vis) != 1:
            self.report('children', self.where, '%s: a child of a node is searched %d times' % (self.name, len(vis)), st)
            return
        self.child(E, st, vis[0], child, path, pos)

    def child(self, E, st, t, child, path, pos):
        el = path is None
        if el:
            path = cat(cat(NPATH, S('/')), T('str', pos))
        sc, _ = self.expected_scope(E, st)
        if t[2] != child:
            self.report('child', self.where, '%s: %s is searched instead of a child of the node' % (self.name, show(t[2])[:80]), st)
        if t[4] != TARGET:
            self.report('target', self.where, '%s: the children are searched for %s' % (self.name, show(t[4])[:80]), st)
        if t[5] != path and not (el and same_path(t[5], path, pos)):
            self.report('path', self.where, '%s: the path of a child is %s instead of %s' % (self.name, show(t[5])[:120], show(path)[:80]), st)
        if sc is None:
            self.report('identifier', self.where, '%s: children are searched without regard to the identifier of the node' % self.name, st)
        elif t[3] not in sc:
            self.report('scope', self.where, '%s: children are searched within the scope %s instead of %s' % (self.name, show(t[3])[:100], show(sc[0])[:100]), st)


def same_path(a, b, pos):
    if a == b:
        return True
    if a[0] == 't' and a[1] == 'cat' and b[0] == 't' and b[1] == 'cat' and a[2:-1] == b[2:-1]:
        x = a[-1]
        return x[0] == 't' and mentions(x, lambda y: y == pos or y[0] == 't' and y[1] == 'idx') and x[1] != 'add' or pos[0] == 'i' and x == S(str(pos[1]))
    if pos[0] == 'i' and a == cat(cat(NPATH, S('/')), S(str(pos[1]))):
        return True
    return False


def searches(res, prog, adapter):
    relies = False
    for name in ('findSchemaById', 'findScopeForPath'):
        f = entry(prog, name, adapter)
        res.need(f is not None, name)
        byid = name == 'findSchemaById'
        for version in (D7, D4):
            for scoped in (True, False):
                c = Search(prog, version, f, name)
                c.scoped, c.scope = scoped, opt(BASE) if scoped else OPT0
                c.where = f['loc']
                names = {'node': ptr(('sym', NODE)), 'currentScope': ptr(('sym', SCOPE)), 'targetUri': ptr(('sym', TARGET)), 'targetPath': ptr(('sym', TARGET)),
                         'nodePath': ptr(('sym', NPATH)), 'foundPath': ptr(('sym', T('foundPath'))), 'foundScope': ptr(('sym', T('foundScope')))}

                def prep(st):
                    st.store[('sym', SCOPE)] = c.scope
                    st.store[('sym', T('foundScope'))] = obj('opt', has=T('has', T('old')), val=T('val', T('old')))
                args = [names[p['n']] for p in f['params'] if p.get('n') in names]
                if len(args) != len(f['params']):
                    res.undec('%s: parameters' % name)
                    continue
                try:
                    c, E, outs, thrown = interpret(prog, f, args, ptr(('sym', T('parser'))), version, c, prep)
                except (AnalysisError, TooBig) as e:
                    res.undec('%s: %s' % (name, e))
                    continue
                relies = relies or getattr(c, 'relies', False)
                for k, l, m, t in c.viol:
                    res.violation('%s/%s' % (name, k), l, m, t)
                for st, v in outs:
                    if st.taint:
                        res.undec('%s: %s' % (name, sorted(st.taint)[0]))
                        continue
                    found(res, c, E, st, v, name, byid, f)
                res.unit('%s (%s, %s scope): %d paths, %d iterations' % (name, version, 'with' if scoped else 'without', len(outs), c.its), len(outs) + c.its)
    return relies


def found(res, c, E, st, v, name, byid, f):
    def bad(k, m):
        res.violation('%s/%s' % (name, k), f['loc'], '%s: %s' % (name, m), st.path())
    if v not in (TRUE, FALSE):
        res.undec('%s: result %s' % (name, show(v)))
        return
    last = st.mon.get('last')
    fs = E.snap(st, E.content(st, ptr(('sym', T('foundScope')))))
    sc, hasid = c.expected_scope(E, st)
    # does the node itself match?
    if byid:
        match = None
        if hasid:
            for x in sc:
                k = known(E, st, T('eq', *sorted((getf(x, 'val'), TARGET), key=repr)))
                for y in (T('eq', getf(x, 'val'), TARGET), T('eq', TARGET, getf(x, 'val'))):
                    k = known(E, st, y) if k is None else k
                match = k if match is None else match
            if match is None:
                return bad('self', 'the identifier of a node is not compared with the one searched for')
        elif hasid is False:
            match = False
    else:
        match = None
        for y in (T('eq', NPATH, TARGET), T('eq', TARGET, NPATH)):
            match = known(E, st, y) if match is None else match
        if match is None:
            return bad('self', 'the path of a node is not compared with the one searched for')
    if match:
        if v != TRUE or last is not None:
            return bad('match', 'a node that matches is not the result of the search')
        if fs != c.scope:
            bad('match scope', 'the scope of the node found is %s instead of the scope it lies in' % show(fs)[:100])
        if byid:
            fp = E.snap(st, E.content(st, ptr(('sym', T('foundPath')))))
            if fp != NPATH:
                bad('match path', 'the path of the node found is %s' % show(fp)[:100])
        return
    if last is not None and last[1]:
        t = last[0]
        if v != TRUE:
            return bad('lost', 'the search fails although a child of the node matches')
        if fs != T('.', 'scope', t):
            bad('child scope', 'the scope of the node found is %s' % show(fs)[:100])
        if byid and E.snap(st, E.content(st, ptr(('sym', T('foundPath'))))) != T('.', 'path', t):
            bad('child path', 'the path of the node found is not returned')
        # the children before this one
        return
    if v == TRUE:
        return bad('nothing', 'the search succeeds although nothing was found')
    if match is None:
        return
    isobj = known(E, st, isx(NODE, 'Object'))
    may = known(E, st, maybex(NODE, 'Array'))
    isarr = known(E, st, isx(NODE, 'Array'))
    if isobj is None and known(E, st, maybex(NODE, 'Object')) is False:
        isobj = False
    if isobj is not False:
        if not (st.mon.get(('end', OBJ)) or E.known_empty(st, OBJ)) and known(E, st, isx(NODE, 'Object')) is not False:
            return bad('members', 'the search gives up before every member of an object was searched')
    if isobj is False and may is not False and isarr is not False:
        arr = T('arr', NODE)
        if not (st.mon.get(('end', arr)) or E.known_empty(st, arr)):
            return bad('elements', 'the search gives up before every element of an array was searched')


def lookups(res, tier):
    prog = ir.load()
    splitting(res, prog)
    escaping(res, prog)
    scoping(res, prog, searches(res, prog, lenient_adapter(prog)))

