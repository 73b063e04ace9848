"""Termination of parsing: every cycle of the parser's call graph is broken by
a descent into the document, by the registry, or by the list of the references
that are being followed."""
import re
from .refs import *
from . import refs

LOCAL = 'local reference'


def site(g, st):
    """Which kind of reference a recursive call follows."""
    root, node = g.get('rootNode'), g.get('node')
    if mentions(root, lambda x: x[:2] == ('t', 'fetched') if isinstance(x, tuple) and len(x) > 1 else False):
        return 'fetched document'
    if root in (ROOTN, T('&', ROOTN), ptr(('sym', ROOTN))):
        return LOCAL
    return 'identifier' if root == node else 'path below an identifier'


def guarded(res, prog, a):
    for name, np in (('makeOrReuseSchema', 11), ('resolveThenPopulateSchema', 11)):
        total = 0
        for scope in (True, False):
            try:
                c, E, outs, thrown = refs.run(prog, a, name, np, D7, scope)
            except TooBig as e:
                res.undec('%s: %s' % (name, e))
                continue
            for u in c.undecided:
                res.undec('%s: %s' % (name, u[2] if len(u) > 2 else u))
            j = Judge(Quiet(), prog, c, E, scope, name)
            j.nf = {}
            ends = [(s, False) for s, v in outs] + [(t[0], True) for t in thrown]
            for st, threw in ends:
                if st.taint:
                    res.undec('%s: %s' % (name, sorted(map(str, st.taint))[0]))
                    continue
                n = lambda v: j.norm(st, v)
                j.nf = {n(x[2]): f for x, f in st.facts.items() if x[:2] == ('t', 'has')}
                seen = {n(x[3]): f for x, f in st.facts.items() if x[:3] == T('has', KEYS) and len(x) == 4}
                if E.known_empty(st, KEYS):
                    seen = None
                evs = st.mon.get('top', ())
                for e in evs:
                    if e[0] != 'recurse':
                        continue
                    total += 1
                    g = dict(e[1])
                    w = site(g, st)
                    ks = g.get('newRegistryKeys')
                    p = pushed(ks) if ks is not None else None
                    new = [n(k) for k in p or ()]
                    if ks is None or p is None or not new:
                        res.violation('%s: unguarded (%s)' % (name, w), e[2], '%s: follows a reference (%s) without remembering it, so a cycle of references is followed without end' % (name, w), st.path())
                    elif seen is not None and not any(seen.get(k) is False for k in new):
                        res.violation('%s: unchecked (%s)' % (name, w), e[2], '%s: follows a reference (%s) without looking whether it is already being followed' % (name, w), st.path())
                if not threw and seen:
                    for k, f in seen.items():
                        if f and not any(e[0] in ('populate', 'recurse') for e in evs):
                            # a cycle that was found is an error, unless the schema is known by now
                            if not any(x[:3] == T('has', REG) and f2 for x, f2 in st.facts.items()):
                                res.violation('%s: cycle accepted' % name, c.where, '%s: returns although a cycle of references was found' % name, st.path())
                local = [e for e in evs if e[0] == 'recurse' and site(dict(e[1]), st) == LOCAL]
                for e in local:
                    s = dict(e[1]).get('currentScope')
                    if scope and mentions(s, lambda x: x == T('base')):
                        res.violation('%s: scope restarts' % name, e[2], '%s: identifiers on the way from the root of the document are resolved again, starting from the scope of the reference, so the scope of a recursive reference can grow without bound' % name, st.path())
        res.unit('%s: %d recursive calls on its paths' % (name, total), total)
        res.need(total, 'recursive calls of ' + name)


class Quiet:
    def violation(self, *a):
        pass

    def undec(self, *a):
        pass


class Only:
    """Passes on violations of certain clauses."""

    def __init__(self, res, keys):
        self.res, self.keys = res, keys

    def violation(self, k, l, m, t=()):
        if k.split('/')[-1] in self.keys:
            self.res.violation(k, l, m, t)

    def undec(self, m):
        self.res.undec(m)


def registered_first(res, prog, a):
    """A schema that is populated was created because its key was absent, and
    is registered before its contents are parsed."""
    n = 0
    for scope in (True, False):
        try:
            c, E, outs, thrown = refs.run(prog, a, 'makeOrReuseSchema', 11, D7, scope)
        except TooBig as e:
            res.undec('makeOrReuseSchema: %s' % e)
            continue
        j = Judge(Only(res, ('duplicate', 'keys', 'key', 'twice')), prog, c, E, scope, 'makeOrReuseSchema')
        for s, v in outs:
            if not s.taint:
                j.run(s, bare(E.snap(s, v)), True)
                n += any(e[0] == 'populate' for e in s.mon.get('top', ()))
    res.unit('makeOrReuseSchema: %d paths that populate a schema' % n, n)
    res.need(n, 'paths that populate a schema')


STRUCTURAL = ('findSchemaById', 'findScopeForPath', 'resolveJsonPointer')
PARSING = re.compile('schema_parser.hpp|json_pointer.hpp|json_reference.hpp|uri.hpp')
GUARDED = ('makeOrReuseSchema', 'resolveThenPopulateSchema')


def components(graph):
    """Strongly connected components with a cycle (Tarjan)."""
    index, low, stack, on, out = {}, {}, [], set(), []

    def visit(v):
        todo = [(v, iter(sorted(graph.get(v, ()))))]
        index[v] = low[v] = len(index)
        stack.append(v)
        on.add(v)
        while todo:
            x, it = todo[-1]
            nxt = None
            for y in it:
                if y not in index:
                    nxt = y
                    break
                if y in on:
                    low[x] = min(low[x], index[y])
            if nxt is not None:
                index[nxt] = low[nxt] = len(index)
                stack.append(nxt)
                on.add(nxt)
                todo.append((nxt, iter(sorted(graph.get(nxt, ())))))
                continue
            todo.pop()
            if todo:
                low[todo[-1][0]] = min(low[todo[-1][0]], low[x])
            if low[x] == index[x]:
                comp = []
                while True:
                    y = stack.pop()
                    on.discard(y)
                    comp.append(y)
                    if y == x:
                        break
                if len(comp) > 1 or x in graph.get(x, ()):
                    out.append(comp)
    for v in sorted(graph):
        if v not in index:
            visit(v)
    return out


def callgraph(prog):
    """Calls between functions of the library; virtual calls reach every overrider."""
    g = {}

    def targets(i):
        todo, got = [i], set()
        while todo:
            x = todo.pop()
            if x in got:
                continue
            got.add(x)
            todo.extend(prog.overriders.get(x, ()))
        return got
    for i, f in prog.functions.items():
        if f.get('body') is None or 'include/valijson/' not in f.get('loc', ''):
            continue
        out = set()
        for nd in ir.walk(f['body']):
            c = nd.get('callee')
            if isinstance(c, dict) and 'id' in c:
                out |= targets(c['id']) if c.get('virt') else {c['id']}
        g[i] = out
    return g


def entry(f, a):
    return f['sq'] == 'valijson::SchemaParser::populateSchema' and len(f['params']) == 4 and any(a in t for t in f.get('targs') or ())


def recursion(res, prog, a):
    g = callgraph(prog)
    name = lambda i: prog.functions[i]['n']
    starts = [i for i in g if entry(prog.functions[i], a)]
    res.need(len(starts), 'the entry point of the parser')
    reach, todo = set(), list(starts)
    while todo:
        x = todo.pop()
        if x in reach or x not in g:
            continue
        reach.add(x)
        todo.extend(g[x])
    sub = {i: {j for j in g[i] if j in reach} for i in reach}
    whole = components(sub)
    cut = {i: {j for j in out if not broken(prog, j)} for i, out in sub.items() if not broken(prog, i)}
    for comp in components(cut):
        if not any(PARSING.search(prog.functions[i].get('loc', '')) for i in comp):
            continue            # values and schema objects: as deep as the data
        ns = sorted({name(i) for i in comp})
        if all(n in STRUCTURAL + GUARDED for n in ns) and len(ns) == 1:
            res.unit('recursion of %s: %s' % (ns[0], 'below the current node' if ns[0] in STRUCTURAL else 'see its recursive calls'), 1)
            continue
        if any(n in ('populateSchema', 'makeOrReuseSchema') for n in ns):
            res.violation('recursion: ' + ', '.join(ns), prog.functions[comp[0]]['loc'], 'the parser recurses through %s without consulting the registry' % ', '.join(ns), ())
        else:
            res.undec('recursion through %s' % ', '.join(ns))
    res.unit('%d functions reachable from the entry point, %d recursive groups' % (len(reach), len(whole)), len(reach))
    res.need(len(whole), 'recursive groups')


def broken(prog, i):
    """The function that consults the registry."""
    f = prog.functions.get(i)
    return f is not None and f['n'] == 'makeOrReuseSchema' and any(p.get('n') == 'newRegistryKeys' for p in f['params'])


def termination(res, tier):
    prog = ir.load()
    a = lenient_adapter(prog)
    guarded(res, prog, a)
    registered_first(res, prog, a)
    recursion(res, prog, a)
