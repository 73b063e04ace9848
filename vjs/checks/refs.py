"""References: which node, document, scope and registry entry a $ref leads to."""
import os
from ..engine import *
from ..visitor import *
from ..models import strv, val, cat
from .. import ir
from .parse import *

KEYS = T('newKeys')
MEMO = ptr(('sym', REG))


def pushed(coll, base=KEYS):
    """Keys pushed onto the list of new keys, None when unknown."""
    out = []
    while coll != base:
        if coll[0] == 't' and coll[1] == 'push':
            out.append(coll[3])
            coll = coll[2]
        else:
            return None
    return out[::-1]


def registered(E, st):
    """Collected keys that were all registered: (keys, subschemas)."""
    out = []
    for k, v in st.mon.items():
        if k[0] == 'keys' and st.mon.get(('end', k[1])):
            out.append((k[1], v))
    return sorted(out, key=repr)


class Refs(Parser):
    def __init__(self, prog, version, entry):
        Parser.__init__(self, prog, version, {}, True)
        self.entry = entry
        self.entry_without_keys = False
        self.what = entry['n']

    def assume(self, E, st, atom, v):
        if atom[0] == 'rel' and I(0) in atom[1:3]:
            o = atom[2] if atom[1] == I(0) else atom[1]
            if o[0] == 't' and o[1] == 'size' and o[2][0] == 't' and o[2][1] == 'push' and '=' in v and len(v) == 1:
                return False
        if atom[0] == 't' and atom[1] == 'nonnull' and v is False and mentions(atom[2], lambda x: x == REG):
            return False            # only subschemas are registered
        return VCheck.assume(self, E, st, atom, v)

    def elem(self, E, st, coll, pos):
        st.mon.setdefault(('start', coll), pos)
        self.cover(st, coll, pos)
        st.mon[('cur', coll, pos)] = ()
        return [(st, None)]

    def event(self, st, ev):
        self.nevents += 1
        cur = [k for k in st.mon if k[0] == 'cur']
        if cur:
            st.mon[cur[-1]] = st.mon[cur[-1]] + (ev,)
        else:
            st.mon['top'] = st.mon.get('top', ()) + (ev,)

    def iteration(self, E, st, coll, pos, evs):
        """Registration of collected keys."""
        if pushed(coll) is None:
            return
        el = T('elem', coll, pos)
        vals = {e[2] for e in evs if e[0] == 'reg' and e[1] == el}
        old = st.mon.get(('keys', coll))
        if pos == I(0) or old is None:
            st.mon[('keys', coll)] = vals if pos == I(0) else set()
            st.mon[('keys', coll)] = frozenset(st.mon[('keys', coll)])
        else:
            st.mon[('keys', coll)] = frozenset(old & vals)
        # keys that differ from every element so far
        differ = frozenset(x for a, f in st.facts.items() if f is False and a[:2] == ('t', 'eq') and el in a[2:] for x in a[2:] if x != el)
        old = st.mon.get(('differs', coll))
        st.mon[('differs', coll)] = differ if pos == I(0) else differ & (old or frozenset())

    def elems_end(self, E, st, coll, pos):
        if pushed(coll) is not None:
            for x in st.mon.get(('differs', coll), ()):
                st.facts[T('has', coll, x)] = False
        return Parser.elems_end(self, E, st, coll, pos)

    def argmap(self, E, st, c, args):
        f = self.p.functions.get(c.get('id'))
        ps = [p.get('n') for p in f['params']] if f else []
        return dict(zip(ps, args))

    def snapv(self, E, st, v):
        return E.snap(st, E.content(st, v) if v[0] == 'ptr' else v)

    def hook(self, E, st, c, this, args, node):
        n, cls, sq = c['n'], c.get('cls'), c['sq']
        if sq.startswith('valijson::internal::json_reference::'):
            s0 = strv(E, st, args[0])
            kind = 'uri' if 'Uri' in n else 'pointer'
            return [(st, obj('opt', has=T('has', T(kind, s0)), val=T(kind, s0)))]
        if sq.startswith('valijson::internal::json_pointer::resolve'):
            st = st.copy()
            nd, p = self.snapv(E, st, args[0]), strv(E, st, args[1])
            r = T('resolved' if n.endswith('Strict') else 'resolved loosely', nd, p)
            if nd != ROOTN or p != S(''):
                s2 = st.copy()
                s2.note(node.get('l', ''), 'the pointer cannot be resolved')
                self.event(s2, ('unresolved', nd, p))
                E.throw(s2, ('exc', 'std::runtime_error', S('pointer')))
            return [(st, r)]
        if cls == 'SchemaParser' and n in ('findSchemaById', 'findScopeForPath') and E.frames:
            d = self.argmap(E, st, c, args)
            root, scope = self.snapv(E, st, d['node']), self.snapv(E, st, d['currentScope'])
            what = strv(E, st, d['targetUri' if 'targetUri' in d else 'targetPath'])
            t = T('byId' if n == 'findSchemaById' else 'scopeFor', root, scope, what)
            self.sites.add((node.get('l'), n))
            out = []
            for s, ok in E.truth(st, T('has', t)):
                s = s.copy()
                if ok:
                    if 'foundPath' in d:
                        E.storev(s, d['foundPath'][1], T('.', 'path', t), node)
                    E.storev(s, d['foundScope'][1], T('.', 'scope', t), node)
                if n == 'findSchemaById' and strv(E, st, d['nodePath']) != S('') or n == 'findScopeForPath' and strv(E, st, d['nodePath']) != S(''):
                    self.report('search', node.get('l', ''), '%s: the search of the document does not start at its root path' % self.what, s)
                out.append((s, B(ok)))
            return out
        if cls == 'SchemaParser' and n == 'populateSchema' and len(args) > 6:
            return self.call_event(E, st, 'populate', c, args, node, UNDEF)
        if cls == 'SchemaParser' and n == 'resolveThenPopulateSchema' and E.frames:
            return self.call_event(E, st, 'recurse', c, args, node, UNDEF)
        if cls == 'SchemaParser' and n == 'makeOrReuseSchema' and E.frames:
            return self.call_event(E, st, 'recurse', c, args, node, T('recursion'))
        if sq == 'std::find' and len(args) == 3:
            a = val(E, st, args[0])
            if a[0] == 'iter' and pushed(a[1]) is not None:
                k = strv(E, st, args[2])
                st = st.copy()
                self.event(st, ('cycle', k, a[1]))
        if sq == 'std::function::operator()' or n == 'operator()' and this is not None and self.snapv(E, st, this) == FETCH:
            st = st.copy()
            u = strv(E, st, args[0]) if args else UNDEF
            self.event(st, ('fetch', u))
            s2 = st.copy()
            s2.note(node.get('l', ''), 'the fetch function throws')
            s2.mon[('fetchresult', u)] = 'throw'
            E.throw(s2, ('exc', 'fetch', UNDEF))
            s3 = st.copy()
            s3.note(node.get('l', ''), 'the fetch function returns no document')
            s3.mon[('fetchresult', u)] = 'null'
            st.mon[('fetchresult', u)] = 'doc'
            self.sites.add((node.get('l'), 'fetch'))
            return [(st, ptr(('sym', T('fetched', u)))), (s3, NULL)]
        if this is not None and sq.startswith('std::map::') and self.snapv(E, st, this) == DOCS and n in ('emplace', 'insert', 'try_emplace', 'insert_or_assign', 'erase', 'clear', 'operator[]'):
            st = st.copy()
            k = x = UNDEF
            if n in ('erase', 'clear'):
                self.event(st, ('forget', n))
                return [(st, UNDEF)]
            if n == 'operator[]':
                k = strv(E, st, args[0])
                self.event(st, ('keep', k, T('fetched', k)))
                return [(st, ptr(('sym', T('slot', k))))]
            if len(args) == 1:
                v = E.content(st, args[0]) if args[0][0] == 'ptr' else args[0]
                k, x = getf(v, 'first'), getf(v, 'second')
            else:
                k, x = strv(E, st, args[0]), args[1]
            if k[0] == 'ptr':
                k = strv(E, st, k)
            k, x = E.snap(st, k), bare(E.snap(st, x))
            if x[0] == 'ptr' and x[1][1] == ():
                x = E.snap(st, E.content(st, x))
            if x[:2] == ('t', '&'):
                x = x[2]
            self.event(st, ('keep', k, x))
            self.sites.add((node.get('l'), 'keep'))
            return [(st, obj('pair', first=('iter', DOCS, T('find', k)), second=T('fresh', k, node.get('nid', 0))))]
        if this is not None and sq.startswith('std::map::') and self.snapv(E, st, this) == REG and n in ('emplace', 'insert', 'try_emplace', 'insert_or_assign'):
            st = st.copy()
            if len(args) == 1:
                v = E.content(st, args[0]) if args[0][0] == 'ptr' else args[0]
                k, x = getf(v, 'first'), getf(v, 'second')
            else:
                k, x = strv(E, st, args[0]), args[1]
            if k[0] == 'ptr':
                k = strv(E, st, k)
            x = bare(E.snap(st, x))
            if x[:2] == ('t', '&') and x[2][:3] == ('t', '.', 'second'):
                x = x[2]            # the registered pointer, passed by reference
            self.event(st, ('reg', E.snap(st, k), x))
            self.sites.add((node.get('l'), 'register'))
            fresh = T('fresh', k, node.get('nid', 0))
            return [(st, obj('pair', first=('iter', REG, T('find', k)), second=fresh))]
        if cls == 'Schema' and n == 'createSubschema':
            st = st.copy()
            k = st.mon.get('created', 0)
            st.mon['created'] = k + 1
            r = ptr(('sym', T('created', k)))
            self.event(st, ('create', bare(r)))
            return [(st, r)]
        return Parser.hook(self, E, st, c, this, args, node)

    def call_event(self, E, st, kind, c, args, node, ret):
        d = self.argmap(E, st, c, args)
        st = st.copy()
        g = {}
        for k, v in d.items():
            if k == 'nodePath':
                g[k] = strv(E, st, v)
            elif k in ('parentSubschema', 'parentSchema', 'ownName', 'subschema', 'rootSchema', 'docCache', 'schemaRegistry'):
                g[k] = bare(v)
            else:
                g[k] = self.snapv(E, st, v)
        self.sites.add((node.get('l'), kind))
        self.event(st, (kind, tuple(sorted(g.items())), node.get('l'), tuple(registered(E, st))))
        return [(st, ret)]


NAMES = {'rootSchema': SCHEMA, 'rootNode': ptr(('sym', ROOTN)), 'node': ptr(('sym', NODE)), 'subschema': SUB,
         'currentScope': ptr(('sym', SCOPE)), 'nodePath': ptr(('sym', NPATH)), 'fetchDoc': FETCH,
         'parentSubschema': PARENT, 'parentSchema': PARENT, 'ownName': OWN, 'docCache': ptr(('sym', DOCS)), 'schemaRegistry': ptr(('sym', REG)),
         'newRegistryKeys': ptr(('sym', KEYS))}


def function(prog, adapter, name, nparams):
    for f in prog.by_q.get('valijson::SchemaParser::' + name, ()):
        if f.get('body') is not None and any(adapter in t for t in f.get('targs') or ()) and len(f['params']) >= nparams:
            return f
    return None


def run(prog, adapter, name, nparams, version=D7, scope=True):
    f = function(prog, adapter, name, nparams)
    if f is None:
        raise AnalysisError(name + ' not found')
    c = Refs(prog, version, f)
    st = State()
    E = Engine(prog, c)
    this = ptr(('sym', T('parser')))
    st.store[('sym', T('parser'))] = obj('SchemaParser', m_version=I(int(version_value(prog, version))), constraintBuilders=BUILDERS)
    st.store[('sym', SCOPE)] = obj('opt', has=TRUE, val=T('base')) if scope else obj('opt', has=FALSE)
    vals = [NAMES.get(p.get('n'), UNDEF) for p in f['params']]
    if UNDEF in vals:
        raise AnalysisError('unknown parameter of ' + name)
    c.where = f['loc']
    outs, thrown = E.run(f, st, this, vals)
    return c, E, outs, thrown


# -------------------------------------------------------------------- verdict
TEXT = T('strv', T('.', 'second', T('elem', OBJ, T('find', S('$ref')))))
URI, POINTER = T('uri', TEXT), T('pointer', TEXT)
HASREF = T('has', OBJ, S('$ref'))


def known(E, st, t):
    return implied(st.facts, t)


def str_known_empty(E, st, v):
    if v[0] == 's':
        return v == S('')
    _, r = E.rel_set(st, T('size', v), I(0))
    return True if r == {'='} or r == '=' or set(r) == {'='} else False if '=' not in r else None


def bare(v):
    """A pointer to an opaque object, without superfluous indirection."""
    while v[:2] == ('t', '&') and (v[2][0] == 'ptr' or v[2][:2] == ('t', '&')):
        v = v[2]
    if v[0] == 'ptr' and v[1][1] == ():
        b = v[1][0]
        if b[0] == 'sym':
            return bare(b[1]) if b[1][0] == 'ptr' or b[1][:2] == ('t', '&') else T('&', b[1])
        if b[0] == 'deref':
            return bare(b[1])
    return v


def idsep(u):
    """Start of a registry key; the separator keeps URI and path apart."""
    return cat(u, S('#')) if u != 'none' else S('#')


class Judge:
    """Expected behaviour of one path."""

    def __init__(self, res, prog, c, E, scope, name):
        self.res, self.c, self.E, self.name = res, c, E, name
        self.scope = obj('opt', has=TRUE, val=T('base')) if scope else obj('opt', has=FALSE)
        self.scoped = scope

    def bad(self, key, msg, st):
        self.res.violation('%s/%s' % (self.name, key), self.c.where, '%s: %s' % (self.name, msg), st.path())

    def norm(self, st, v):
        """Replace texts known to be empty, and equal optionals."""
        if not isinstance(v, tuple):
            return v
        if v == POINTER and (known(self.E, st, T('has', POINTER)) is False or str_known_empty(self.E, st, v) or known(self.E, st, T('eq', S('/'), POINTER))):
            return S('')
        if v[0] == 't' and v[1] == 'has':
            f = known(self.E, st, v)
            if f is not None:
                return B(f)
        if v[0] == 't' and v[1] == 'cat':
            r = None
            for x in v[2:]:
                y = self.norm(st, x)
                r = y if r is None else cat(r, y)
            return r
        return tuple(self.norm(st, x) for x in v)

    def pointer(self, st):
        E = self.E
        if known(E, st, T('has', POINTER)) is False:
            return S('')
        return self.norm(st, POINTER)

    def documents(self, st):
        """The document the reference names: admissible terms, or None."""
        E = self.E
        h = known(E, st, T('has', URI))
        if h is None:
            return None
        if not h:
            return [T('base') if self.scoped else 'none']
        a, u = known(E, st, T('isUriAbsolute', URI)), known(E, st, T('isUrn', URI))
        if not self.scoped:
            return [URI]
        r = T('resolveRelativeUri', T('base'), URI)
        if a or u:
            return [URI, r]
        return [r]

    def run(self, st, ret, recursive):
        E, name = self.E, self.name
        evs = st.mon.get('top', ())
        n = lambda v: self.norm(st, v)
        self.nf = {n(a[2]): f for a, f in st.facts.items() if a[:2] == ('t', 'has')}
        calls = [e for e in evs if e[0] in ('populate', 'recurse')]
        regs = {(n(e[1]), e[2]) for e in evs if e[0] == 'reg'}
        creates = [e[1] for e in evs if e[0] == 'create']
        isref = known(E, st, HASREF)
        if known(E, st, isx(NODE, 'Object')) is False:
            isref = False
        if isref is None:
            return self.bad('untested', 'whether the node is a reference is not tested', st)
        if len(calls) > 1:
            return self.bad('twice', 'the schema is populated more than once', st)
        keysets = registered(E, st)

        def all_keys(extra, sub):
            """Every collected key and `extra` is registered for sub."""
            done = list(regs)
            ok = E.known_empty(st, KEYS)
            for coll, vals in keysets:
                ks = pushed(coll)
                if {n(x) for x in vals} == {sub}:
                    ok = True
                    done += [(n(k), sub) for k in ks]
            return ok, all((k, sub) in done for k in extra)

        if not isref:
            if not calls:
                want = None
            else:
                want = (NODE, ROOTN, self.scope, NPATH)
            key = cat(idsep(T('base') if self.scoped else 'none'), NPATH)
            self.finish(st, ret, calls, creates, want, [key], all_keys, recursive, n, regs, keysets)
            return
        p = self.pointer(st)
        docs = self.documents(st)
        if docs is None:
            return self.bad('uri', 'the document named by the reference is not determined', st)
        plain = None
        if p == S(''):
            plain = False
        else:
            e = str_known_empty(E, st, p)
            _, r = E.rel_set(st, T('[]', p, I(0)), I(47))
            if set(r) == {'='}:
                plain = False
            elif '=' not in r and e is False:
                plain = True
        alts = []
        for u in docs:
            idref = cat(cat(u, S('#')), p) if u != 'none' else cat(S('#'), p)
            qk = n(cat(idsep(u), p))
            alts.append((u, n(idref), qk))
        if not calls:
            # an already registered schema is reused
            ret = n(ret)
            for u, idref, qk in alts:
                for k in (qk, idref):
                    if ret == T('.', 'second', T('elem', REG, T('find', k))):
                        ok, _ = all_keys([], ret)
                        if creates:
                            self.bad('reuse creates', 'a schema is created although one is registered', st)
                        if not ok and not self.c.entry_without_keys:
                            self.bad('reuse keys', 'the keys of the references followed are not registered for the schema that is reused', st)
                        return
            return self.bad('reuse', 'yields %s for a reference' % show(ret)[:120], st)
        got = dict(calls[0][1])
        node, root, scope, path = n(got.get('node')), n(got.get('rootNode')), n(got.get('currentScope')), n(got.get('nodePath'))
        msgs = []
        for u, idref, qk in alts:
            m = self.target(st, u, idref, p, plain, node, root, scope, path, n)
            if m is None:
                key = idref if plain and node[0] == 't' and node[1] == 'resolved' and node[2] == ROOTN and node[3] == T('.', 'path', T('byId', ROOTN, self.scope, idref)) else qk
                self.finish(st, ret, calls, creates, (node, root, scope, path), [key], all_keys, recursive, n, regs, keysets)
                return
            msgs.append(m)
        self.bad('target/' + msgs[0], msgs[0], st)

    def target(self, st, u, idref, p, plain, node, root, scope, path, n):
        E = self.E
        sc = self.scope
        t1, t2 = T('byId', ROOTN, sc, idref), T('byId', ROOTN, sc, u)
        if root[0] == 't' and root[1] == 'resolved' and root[2] == ROOTN and root[3] == T('.', 'path', t1):
            if plain is False:
                return 'a JSON Pointer is looked up as an identifier'
            rs = T('.', 'scope', t1)
            if node != root or path != S(''):
                return 'the schema with the identifier of the reference is not the one used'
            # a plain name denotes a part of its document, not a document
            self.bad('plain-name root', 'references within a schema found by its plain-name identifier are resolved against this schema instead of the document it lies in', st)
            return None if scope == rs else 'the schema found by identifier is given the scope %s' % show(scope)[:100]
        if plain is None:
            if p == S('') or p[0] == 's':
                plain = False
        if plain is not False and root == ROOTN and node == T('resolved', ROOTN, T('.', 'path', t1)) and path == T('.', 'path', t1):
            rs = T('.', 'scope', t1)
            return None if scope == rs else 'the schema found by identifier is given the scope %s' % show(scope)[:100]
        if plain is not False and self.nf.get(n(t1)) is not False:
            return 'a fragment that is not a JSON Pointer is not looked up as an identifier'
        rs, what = None, None
        if u != 'none':
            other = True if not self.scoped else self.differs(st, u)
        else:
            other = False
        if other is None:
            return 'whether the reference names another document is not tested'
        if other:
            by = self.nf.get(n(t2))
            if root[0] == 't' and root[1] == 'resolved' and root[2] == ROOTN and root[3] == T('.', 'path', t2):
                if not by:
                    return 'a schema that was not found is used'
                rs, what = T('.', 'scope', t2), 'an embedded schema'
            elif by is not False:
                return 'another document is used without searching this one for a schema with that identifier'
            elif self.isdoc(st, root, u):
                rs, what = obj('opt', has=TRUE, val=u), 'another document'
            else:
                return 'the reference to another document is resolved against %s' % show(root)[:100]
        else:
            if root != ROOTN:
                return 'the reference to the current document is resolved against %s' % show(root)[:100]
            rs, what = sc, 'the current document'
        if path != p:
            return 'the path of the schema in %s is %s' % (what, show(path)[:100])
        if node != (root if p == S('') else T('resolved', root, p)) and node != T('resolved', root, p):
            return 'the schema used from %s is %s' % (what, show(node)[:100])
        sf = T('scopeFor', root, rs, p)
        ok = [rs] if p == S('') else []
        f = self.nf.get(n(sf))
        if f:
            ok.append(T('.', 'scope', sf))
        elif f is False:
            ok.append(rs)
        if p == S(''):
            ok.append(T('.', 'scope', sf))
        if scope not in ok:
            return 'the scope of the schema in %s is %s' % (what, show(scope)[:120])
        return None

    def differs(self, st, u):
        if u == T('base'):
            return False
        f = known(self.E, st, T('eq', *sorted((T('base'), u), key=repr)))
        if f is None:
            f = known(self.E, st, T('eq', T('base'), u))
        if f is None:
            f = known(self.E, st, T('eq', u, T('base')))
        return None if f is None else not f

    def isdoc(self, st, root, u):
        d = {T('fetched', u), T('.', 'second', T('elem', DOCS, T('find', u)))}
        return mentions(root, lambda x: x in d) and not mentions(root, lambda x: x == ROOTN)

    def finish(self, st, ret, calls, creates, want, keys, all_keys, recursive, n, regs, keysets):
        E = self.E
        c = self.c
        if not calls:
            # reuse of a registered schema
            k = keys[0]
            r = T('.', 'second', T('elem', REG, T('find', k)))
            ret = n(ret)
            if ret != r:
                return self.bad('result', 'a node that is no reference yields %s without being populated' % show(ret)[:100], st)
            if known(E, st, T('has', REG, k)) is not True:
                self.bad('result', 'an unregistered schema is used', st)
            ok, _ = all_keys([], r)
            if not ok:
                self.bad('reuse keys', 'the keys of the references followed are not registered for the schema that is reused', st)
            return
        kind, g = calls[0][0], dict(calls[0][1])
        if want is not None:
            got = tuple(n(g.get(k)) for k in ('node', 'rootNode', 'currentScope', 'nodePath'))
            for a, b, k in zip(got, want, ('node', 'document root', 'scope', 'path')):
                if a != b:
                    self.bad('origin ' + k, 'the %s of the schema is %s instead of %s' % (k, show(a)[:100], show(b)[:100]), st)
        for k, w in (('fetchDoc', FETCH), ('docCache', T('&', DOCS)), ('schemaRegistry', T('&', REG)), ('rootSchema', bare(SCHEMA)), ('ownName', bare(OWN))):
            if k in g and g[k] != w:
                self.bad('context ' + k, 'the schema is not given the same %s' % k, st)
        par = g.get('parentSubschema', g.get('parentSchema'))
        if par is not None and par != bare(PARENT):
            self.bad('context parent', 'the schema is not given the same parent', st)
        if not recursive:
            # the root schema: populated in place
            if creates or g.get('subschema') != bare(SUB):
                self.bad('in place', 'another schema than the given one is populated', st)
            return
        if kind == 'populate':
            if len(creates) != 1 or g.get('subschema') != creates[0]:
                return self.bad('create', 'the schema populated is not the one created for it', st)
            if ret != creates[0]:
                self.bad('result', 'yields %s instead of the schema that was populated' % show(ret)[:100], st)
            if not any(f is False and a[:3] == T('has', REG) and n(a[3]) == keys[0] for a, f in st.facts.items()):
                self.bad('duplicate', 'a schema is created although one may be registered for the node', st)
            ok, ex = self.before(st, calls[0], keys, creates[0], n)
            if not ok:
                self.bad('keys', 'the keys of the references followed are not registered before the schema is populated', st)
            if not ex:
                self.bad('key', 'the schema is not registered for its own node before it is populated', st)
        else:
            if ret != T('recursion'):
                self.bad('result', 'yields %s instead of the schema the reference leads to' % show(ret)[:100], st)
            if creates:
                self.bad('create', 'a schema is created for a reference to a reference', st)

    def before(self, st, call, keys, sub, n):
        E = self.E
        ok = E.known_empty(st, KEYS)
        done = []
        for e in st.mon.get('top', ()):
            if e is call or e == call:
                break
            if e[0] == 'reg' and e[2] == sub:
                done.append(n(e[1]))
        for coll, vals in call[3]:
            if {n(x) for x in vals} == {sub}:
                ok = True
                done += [n(k) for k in pushed(coll)]
        return ok, all(k in done for k in keys)


def references(res, tier):
    prog = ir.load()
    a = lenient_adapter(prog)
    for name, np, rec in (('makeOrReuseSchema', 11, True), ('resolveThenPopulateSchema', 11, False)):
        for scope in (True, False):
            try:
                c, E, outs, thrown = run(prog, a, name, np, D7, scope)
            except TooBig as e:
                res.undec('%s: %s' % (name, e))
                continue
            c.entry_without_keys = not rec
            j = Judge(res, prog, c, E, scope, name)
            for s, v in outs:
                if s.taint:
                    res.undec('%s: %s' % (name, sorted(s.taint)[0]))
                    continue
                j.run(s, bare(E.snap(s, v)), rec)
            for u in c.undecided:
                res.undec('%s: %s' % (name, u[2] if len(u) > 2 else u))
            for k, l, m, t in c.viol:
                res.violation('%s/%s' % (name, m), l, m, t)
            res.unit('%s (%s scope): %d returning and %d throwing paths' % (name, 'with' if scope else 'without', len(outs), len(thrown)), len(outs) + len(thrown))
