"""Abstract execution of the validation visitor against the adapter interface.

Everything behind the adapter interface, the regular-expression engine and the
error sink is an uninterpreted predicate or term; recursive validation of a
child (value, subschema) pair is an event with both verdicts.  Assume/guarantee:
a child verdict of false with an error sink leaves an error in that sink, a true
verdict leaves none (this is what property C01 proves for every keyword).
"""
from .engine import (Check, Engine, State, AnalysisError, TooBig, NULL, UNDEF, TRUE, FALSE,
                     I, B, S, T, ptr, obj, getf, setf, mentions, show)
from .models import coll_method, as_coll, val, cat, strv, str_eq
from . import ir

TGT = T('tgt')
CON = T('con')
PATH = T('path')
STRICT = T('strict')
SDATE = T('strictDateTime')
CACHE = T('cache')
RES = ptr(('sym', T('results')))

IS = {'isArray': 'Array', 'isBool': 'Bool', 'isDouble': 'Double', 'isInteger': 'Integer', 'isNull': 'Null',
      'isNumber': 'Number', 'isObject': 'Object', 'isString': 'String'}
MAYBE = {'maybeArray': 'Array', 'maybeBool': 'Bool', 'maybeDouble': 'Double', 'maybeInteger': 'Integer',
         'maybeNull': 'Null', 'maybeObject': 'Object', 'maybeString': 'String'}
GROUP = {'Array': 'a', 'Bool': 'b', 'Double': 'n', 'Integer': 'n', 'Number': 'n', 'Null': 'z', 'Object': 'o', 'String': 's'}
AS = {'Array': 'arr', 'Object': 'objv', 'String': 'strv', 'Double': 'num', 'Integer': 'int', 'Bool': 'boolv', 'Number': 'num'}


def adapter_file(prog, clst):
    r = prog.records.get(clst)
    if not r:
        return False
    l = r['loc']
    return '/adapters/' in l or '/internal/adapter.hpp' in l or '/internal/basic_adapter.hpp' in l or '/internal/object_iterator' in l


def isx(a, x):
    return T('is', x, a)


def maybex(a, x):
    return T('maybe', x, a)


def known(st, atom):
    return st.facts.get(atom)


def implied(facts, atom):
    """Value of a type atom implied by the adapter axioms, or None."""
    v = facts.get(atom)
    if v is not None:
        return v
    if atom[1] == 'is':
        x, a = atom[2], atom[3]
        mk = 'Double' if x in ('Number', 'Double', 'Integer') else x
        for m in ((mk,) if x != 'Integer' else ('Double', 'Integer')):
            if facts.get(maybex(a, m)) is False:
                return False
        for y, g in GROUP.items():
            if facts.get(isx(a, y)) is True:
                if g != GROUP[x]:
                    return False
                if x == 'Number':
                    return True
        if x in ('Integer', 'Double') and facts.get(isx(a, 'Number')) is False:
            return False
        if x == 'Number' and facts.get(isx(a, 'Integer')) is False and facts.get(isx(a, 'Double')) is False:
            return False
        if x in ('Integer', 'Double') and facts.get(isx(a, 'Number')) is True:
            o = 'Double' if x == 'Integer' else 'Integer'
            if facts.get(isx(a, o)) is False:
                return True
    elif atom[1] == 'maybe':
        x, a = atom[2], atom[3]
        for y in ((x,) if x != 'Double' else ('Double', 'Integer', 'Number')):
            if facts.get(isx(a, y)) is True:
                return True
    return None


def feasible(st):
    """False if the integer orderings on the path contradict each other."""
    idx = {}
    edges = []

    def node(t):
        k = 0
        while t[0] == 't' and t[1] == 'add' and t[3][0] == 'i':
            k += t[3][1]
            t = t[2]
        if t[0] == 'i':
            k += t[1]
            t = ('i', 0)
        elif t[0] == 'f':
            return None
        return idx.setdefault(t, len(idx)), k
    zero = node(('i', 0))[0]
    for a, f in st.facts.items():
        if a[0] != 'rel' or 'u' in f:
            continue
        x, y = node(a[1]), node(a[2])
        if x is None or y is None or f == '<>':
            continue
        (i, p), (j, q) = x, y          # i+p  f  j+q
        if '>' not in f:
            edges.append((i, j, q - p - (0 if '=' in f else 1)))
        if '<' not in f:
            edges.append((j, i, p - q - (0 if '=' in f else 1)))
    for t, i in idx.items():
        if t[0] == 't' and t[1] in ('size', 'u8len', 'idx'):
            edges.append((zero, i, 0))     # 0 <= t
    n = len(idx)
    d = [0] * n
    for _ in range(n + 1):
        ch = False
        for i, j, w in edges:              # i - j <= w
            if d[j] + w < d[i]:
                d[i] = d[j] + w
                ch = True
        if not ch:
            return True
    return False


class VCheck(Check):
    """Hooks shared by the visitor analyses."""
    inline_depth = 24

    def __init__(self, prog):
        self.p = prog
        self.viol = []          # (kind, loc, message, trace)
        self.events = []

    def report(self, kind, loc, msg, st):
        if st is not None and st.taint:
            self.undecided.add((kind, loc, msg))
            return
        k = (kind, loc, msg)
        if k not in self.seen:
            self.seen.add(k)
            self.viol.append((kind, loc, msg, st.path() if st is not None else []))

    seen = None
    # saturating event counters kept by the monitor
    count = {('val', False): 1}

    def reset(self):
        self.viol = []
        self.absent, self.maybe, self.used, self.tested = {}, {}, set(), set()
        self.seen = set()
        self.undecided = set()
        self.nevents = 0
        self.sites = set()

    # ------------------------------------------------------------ predicates
    def assume(self, E, st, atom, v):
        if atom[0] == 't' and atom[1] in ('is', 'maybe'):
            f = dict(st.facts)
            del f[atom]
            w = implied(f, atom)
            if w is not None and w != v:
                return False
            # consistency of the others
            for y in list(GROUP):
                for at in (isx(atom[3], y), maybex(atom[3], y)):
                    if at in st.facts:
                        f = dict(st.facts)
                        del f[at]
                        w = implied(f, at)
                        if w is not None and w != st.facts[at]:
                            return False
        if atom[0] == 'rel':
            a, b = atom[1], atom[2]
            for x, y, rel in ((a, b, v), (b, a, v.translate(str.maketrans('<>', '><')))):
                if x[0] == 't' and x[1] == 'size' and '>' not in rel and y[0] in ('i', 't', 'ge') and x[2][0] == 't' and x[2][1] not in ('new', 'push', 'grown') and (y == I(0) or not self.must_cover(x[2]) and self.reached(y)):
                    # size(x) <= y : position y is past the end
                    st.mon[('end', x[2])] = True
        if atom[0] == 't' and atom[1] == 'has' and v is True and len(atom) == 4:
            # a non-empty collection
            c = atom[2]
            if c == CACHE:
                st.mon[('cached', atom[3])] = True
                del st.facts[atom]
                return True
            k, s = E.rel_set(st, T('size', c), I(0), False, True)
            if s == '=':
                return False
            if c[0] == 't' and c[1] in ('objv', 'arr', '.'):
                st.facts[('rel', I(0), T('size', c))] = '<'
        if atom[0] == 't' and atom[1] == 'nonnull':
            self.tested.add(atom[2])
        if atom[0] == 't' and atom[1] == 'has' and atom[2] == CACHE:
            st.mon[('cached', atom[3])] = v
            del st.facts[atom]
        return True

    def pred(self, st, atom):
        w = implied(st.facts, atom)
        if w is not None:
            return B(w)
        return atom

    # ------------------------------------------------------------ collections
    # ------------------------------------------------------------ absent objects
    def deref(self, E, st, v, n):
        loc = n.get('l')
        if not loc:
            return
        why = None
        if v == NULL:
            why = 'a null pointer'
        elif v[0] == 'iter':
            coll, pos = v[1], v[2]
            if pos == 'end':
                why = 'the end of a collection'
            elif pos[0] == 't' and pos[1] == 'find':
                a = T('has', coll, pos[2])
                h = st.mon.get(('cached', pos[2])) if coll == CACHE else implied(st.facts, a)
                if h is False or h is None and E.known_empty(st, coll):
                    why = 'the result of a search that found nothing'
                elif h is None:
                    why = 'the result of a search that may have found nothing'
            elif pos == I(0) and coll[0] == 't' and coll[1] != 'top':
                r = E.rel_set(st, T('size', coll), pos, False, True)[1]
                if '=' in r and T('at', coll, pos) not in st.facts:
                    why = 'the first element of a collection that may be empty'
        elif v[0] == 't' and v[1] == 'opt':
            x = v[2]
            h = dict(x[3]).get('has') if x[0] == 'obj' else None
            if h == FALSE:
                why = 'an empty optional'
            elif x[0] == 'obj' and h not in (None, TRUE) and implied(st.facts, h) is False:
                why = 'an empty optional'
        elif v[0] == 't' and v[1] not in ('new', '&'):
            h = st.facts.get(T('nonnull', v))
            if h is False:
                why = 'a null pointer'
            elif h is None:
                self.maybe.setdefault((v, loc), None)
                if self.maybe[(v, loc)] is None and not st.taint:
                    self.maybe[(v, loc)] = st.path()
        self.used.add((loc, v[0] if v[0] != 't' else 'pointer'))
        if why is None:
            return
        if st.taint:
            self.undecided.add(('absent', loc, why))
        elif feasible(st):
            self.absent.setdefault((loc, why), st.path())

    def elem(self, E, st, coll, pos):
        self.cover(st, coll, pos)
        st.mon[('cur', coll, pos)] = frozenset()
        return [(st, None)]

    def cover(self, st, coll, pos):
        if pos == I(0):
            st.mon[('cover', coll)] = True
        else:
            st.mon.setdefault(('cover', coll), False)

    # a traversal must visit every element, from the first one on
    covers = True

    def reached(self, y):
        """An index, rather than a number computed from the sizes."""
        return y[0] != 't' or not mentions(y, lambda z: z[:2] == ('t', 'size') or z[:2] == ('t', 'min'))

    def must_cover(self, coll):
        return self.covers

    def elems_end(self, E, st, coll, pos):
        if not self.must_cover(coll) or st.mon.get(('cover', coll), pos == I(0)):
            st.mon[('end', coll)] = True
        return True

    def iter_done(self, E, st, coll, pos):
        k = ('cur', coll, pos)
        if k not in st.mon:
            st.mon[('cover', coll)] = False
        else:
            evs = st.mon.pop(k)
            self.iteration(E, st, coll, pos, evs)
            st.mon.pop(('end', coll), None)

    def iteration(self, E, st, coll, pos, evs):
        pass

    def event(self, st, ev):
        self.nevents += 1
        for k in list(st.mon):
            if k[0] == 'cur':
                st.mon[k] = st.mon[k] | {ev}
        n = ('n',) + ev[:1] + (ev[-1],)
        cap = self.count.get(n[1:], 0)
        if cap:
            st.mon[n] = min(st.mon.get(n, 0) + 1, cap)

    def widen_term(self, E, nid, hv, nv):
        if nv[0] == 't' and nv[1] in ('push', 'grown'):
            b = nv
            while b[0] == 't' and b[1] == 'push':
                b = b[2]
            return b if b[0] == 't' and b[1] == 'grown' else T('grown', b)
        return None

    # ------------------------------------------------------------------ calls
    def is_adapter(self, c):
        t = c.get('clst')
        return bool(t) and adapter_file(self.p, t)

    def no_inline(self, c):
        return self.is_adapter(c)

    def maythrow_adapter(self, E, st, need, node, what):
        """A conversion is used; `need` must be implied by the facts."""
        w = implied(st.facts, need) if need is not None else True
        self.sites.add((node.get('l'), what))
        if w is not True:
            self.conversion(E, st, need, node, what)

    def conversion(self, E, st, need, node, what):
        pass

    def hook(self, E, st, c, this, args, node):
        n = c['n']
        cls = c.get('cls')
        if cls == 'ValidationVisitor' and n == 'validateSchema' and E.frames and not self.analysing_validate:
            return self.validate_event(E, st, this, args, node)
        if cls == 'ValidationResults':
            r = self.results_call(E, st, c, n, this, args, node)
            if r is not None:
                return r
        if n == 'search' and len(args) == 2 and c.get('root') and not c.get('virt'):
            return self.search(E, st, c, args, node)
        if c.get('clst') and self.is_regex(c):
            if n == cls:
                v = val(E, st, args[0])
                return [(st, T('re', E.snap(st, v)))]
        if c['sq'].startswith('std::unordered_map::') and this is not None and E.content(st, this) == CACHE:
            return self.cache_call(E, st, c, n, this, args, node)
        if c['sq'] in ('std::set::insert', 'std::set::emplace', 'std::unordered_set::insert', 'std::unordered_set::emplace') and args:
            key = E.snap(st, val(E, st, args[0]))
            st = st.copy()
            self.event(st, ('ins', key, True))
            if this[0] == 'ptr' and len(args) == 1:
                old = E.load(st, this[1])
                new = old
                while new[0] == 't' and new[1] == 'push':
                    new = new[2]
                if new[0] == 't' and new[1] != 'grown':
                    new = T('grown', new)
                for f in [f for f in st.facts if mentions(f, lambda x: x in (old, new))]:
                    del st.facts[f]
                E.storev(st, this[1], new, node)
                return [(st, obj('pair', first=('iter', new, T('find', key)), second=('top', 'inserted')))]
            return self.passthru(E, st, c, this, args, node)
        if c['sq'] in ('std::isfinite', 'std::isnan', 'std::isinf'):
            v, what = val(E, st, args[0]), c['sq'][7:]
            f = [st.facts.get(T(x, v)) for x in ('finite', 'isnan', 'isinf')]
            if what == 'isfinite' and (f[1] or f[2] or f[1] is False and f[2] is False):
                return [(st, B(not (f[1] or f[2])))]
            if what != 'isfinite' and (f[0] or f[1] and what == 'isinf' or f[2] and what == 'isnan'):
                return [(st, FALSE)]
            return [(st, T('finite' if what == 'isfinite' else what, v))]
        if n == 'u8_strlen':
            s0 = strv(E, st, args[0])
            if len(args) > 1 and val(E, st, args[1]) != T('size', s0) and not (s0[0] == 's'):
                return [(st, T('u8len', s0, val(E, st, args[1])))]
            return [(st, T('u8len', s0))]
        if self.is_adapter(c):
            return self.adapter_call(E, st, c, this, args, node)
        if cls == 'FrozenValue' and n == 'equalTo':
            return self.equality(E, st, E.content(st, this), args, node)
        if n == 'accept' and c.get('virt'):
            return self.accept_event(E, st, this, args, node)
        return None

    analysing_validate = False

    def is_regex(self, c):
        r = self.p.records.get(c['clst'])
        return bool(r) and 'Regex' in r['n'] and '/validator.hpp' in r['loc']

    def passthru(self, E, st, c, this, args, node):
        from .models import call_model, op_model
        r = call_model(E, st, c, this, args, node)
        if r is None and c['n'].startswith('operator') and node.get('k') == 'opcall':
            r = op_model(E, st, node, c, c['n'][8:], ([this] if this is not None else []) + list(args))
        return r

    def search(self, E, st, c, args, node):
        subj = strv(E, st, args[0])
        re = val(E, st, args[1])
        if re[0] == 't' and re[1] == '.' and re[2] == 'second' and re[3][0] == 't' and re[3][1] == 'elem' and re[3][2] == CACHE:
            pos = re[3][3]
            re = T('re', pos[2]) if pos[0] == 't' and pos[1] == 'find' else re
        elif re[0] == 't' and re[1] == '[]' and re[2] == CACHE:
            re = T('re', re[3])
        return [(st, T('search', E.snap(st, subj), re))]

    def cache_call(self, E, st, c, n, this, args, node):
        if n in ('find', 'end', 'cend', 'begin', 'count', 'contains'):
            return coll_method(E, st, c, this, n, args, node, 'std::unordered_map')
        if n in ('emplace', 'insert', 'try_emplace', 'insert_or_assign'):
            if len(args) == 1:
                pv = val(E, st, args[0])
                k, v = E.snap(st, getf(pv, 'first')), E.snap(st, getf(pv, 'second'))
            else:
                k, v = E.snap(st, val(E, st, args[0])), E.snap(st, val(E, st, args[1]))
            if n == 'try_emplace' and v != T('re', k):
                v = T('re', v)
            self.cache_insert(E, st, k, v, node)
            st = st.copy()
            st.mon[('cached', k)] = True
            return [(st, obj('pair', first=('iter', CACHE, T('find', k)), second=T('has', CACHE, k)))]
        if n in ('at', 'operator[]'):
            return [(st, ptr(('sym', T('[]', CACHE, E.snap(st, val(E, st, args[0]))))))]
        return None

    def cache_insert(self, E, st, k, v, node):
        pass

    def adapter_call(self, E, st, c, this, args, node):
        n = c['n']
        cls = c.get('cls', '')
        k = node.get('k')
        if k == 'ctor' or this is None and n == cls:
            if len(args) == 1 and ('terator' in cls or node.get('copy') or node.get('move')):
                return [(st, val(E, st, args[0]))]
            return [(st, T('new', cls, *[E.snap(st, val(E, st, a)) for a in args]))]
        if this is None:
            return None
        a = E.content(st, this) if this[0] == 'ptr' else this
        if n.startswith('operator'):
            return None          # iterators: handled by shape
        if a[0] == 'iter':
            if n == 'advance':
                from .models import op_model
                return op_model(E, st, node, c, '+=', [this] + args)
            return None
        a = E.snap(st, a)
        if n in IS:
            return [(st, self.pred(st, isx(a, IS[n])))]
        if n in MAYBE:
            return [(st, self.pred(st, maybex(a, MAYBE[n])))]
        if n == 'equalTo':
            return self.equality(E, st, a, args, node)
        if n == 'freeze':
            return [(st, T('frozen', a))]
        if n[:2] == 'as' and n[2:] in AS:
            x = n[2:]
            term = T(AS[x], a)
            if args:
                ok = self.pred(st, maybex(a, x))
                return self.outparam(E, st, ok, args[0], term, node)
            self.maythrow_adapter(E, st, maybex(a, x), node, n)
            return [(st, term)]
        if n[:3] == 'get' and n[3:] in AS and n not in ('getArrayOptional',):
            x = n[3:]
            term = T(AS[x], a)
            if args:
                ok = self.pred(st, isx(a, x))
                return self.outparam(E, st, ok, args[0], term, node)
            self.maythrow_adapter(E, st, isx(a, x), node, n)
            return [(st, term)]
        if n in ('getArraySize', 'getObjectSize'):
            x = n[3:-4]
            term = T('size', T(AS[x], a))
            if args:
                return self.outparam(E, st, self.pred(st, isx(a, x)), args[0], term, node)
            self.maythrow_adapter(E, st, isx(a, x), node, n)
            return [(st, term)]
        if n.startswith('applyTo') or n == 'hasStrictTypes':
            return None
        if n in ('begin', 'end', 'size', 'find', 'cbegin', 'cend', 'empty'):
            return coll_method(E, st, c, ptr(('sym', a)) if True else this, n, args, node, 'std::map')
        return None

    def outparam(self, E, st, ok, out, term, node):
        res = []
        for s, t in E.truth(st, ok):
            s = s.copy()
            if t and out[0] == 'ptr':
                E.storev(s, out[1], term, node)
            res.append((s, B(t)))
        return res

    def equality(self, E, st, a, args, node):
        b = E.content(st, args[0]) if args[0][0] == 'ptr' else args[0]
        a, b = E.snap(st, a), E.snap(st, b)
        strict = val(E, st, args[1]) if len(args) > 1 else UNDEF
        atom = T('eqv', *sorted((a, b), key=repr))
        out = []
        for s, t in E.truth(st, atom):
            s = s.copy()
            self.sites.add((node.get('l'), 'equalTo'))
            self.event(s, ('eqv', a, b, strict, t))
            out.append((s, B(t)))
        return out

    # ------------------------------------------------------------- validation
    def results_call(self, E, st, c, n, this, args, node):
        loc = this[1] if this is not None and this[0] == 'ptr' else None
        if n == 'ValidationResults' and node.get('k') == 'ctor':
            return [(st, obj('ValidationResults', n=I(0)))]
        if loc is None:
            return [(st, ('top', 'results'))]
        if n == 'pushError':
            st = st.copy()
            self.sites.add((node.get('l'), 'pushError'))
            v = E.load(st, loc)
            self.error_event(E, st, loc, args, node)
            E.storev(st, loc, setf(v, 'n', I(1)), node)
            return [(st, UNDEF)]
        if n == 'numErrors':
            v = getf(E.load(st, loc), 'n')
            return [(st, v if v == I(0) else ('ge', 1))]
        if n == 'popError':
            v = E.load(st, loc)
            if getf(v, 'n') == I(0):
                return [(st, FALSE)]
            out = []
            s = st.copy()
            E.storev(s, args[0][1], T('error-of', getf(v, 'id')), node)
            out.append((s, TRUE))
            s2 = s.copy()
            E.storev(s2, loc, setf(E.load(s2, loc), 'n', I(0)), node)
            out.append((s2, TRUE))
            return out
        return None

    def error_event(self, E, st, loc, args, node):
        pass

    def visitor_fields(self, E, st, this):
        v = E.content(st, this)
        g = lambda f: getf(v, f)
        snap = lambda x: E.snap(st, E.content(st, x)) if x[0] == 'ptr' else x
        return {'target': snap(g('m_target')), 'path': snap(g('m_path')), 'results': g('m_results'),
                'strict': snap(g('m_strictTypes')), 'sdate': snap(g('m_strictDateTime')), 'cache': g('m_regexesCache')}

    def validate_event(self, E, st, this, args, node):
        f = self.visitor_fields(E, st, this)
        sub = args[0]
        if sub[0] == 'ptr':
            r, pth = sub[1]
            sub = r[1] if r[0] in ('deref', 'sym') and not pth else E.snap(st, E.load(st, sub[1]))
        self.sites.add((node.get('l'), 'validateSchema'))
        self.on_validate(E, st, f, sub, node)
        out = []
        for verdict in (True, False):
            s = st.copy()
            r = f['results']
            if not verdict and r[0] == 'ptr':
                v = E.load(s, r[1])
                E.storev(s, r[1], setf(v, 'n', I(1)), node)
            elif not verdict and r != NULL:
                E.taint(s, 'unknown error sink')
            s.note(node.get('l', ''), 'child %s against %s is %s' % (show(f['target'])[:60], show(sub)[:60], 'valid' if verdict else 'invalid'))
            self.event(s, ('val', f['target'], sub, f['path'], verdict))
            out.append((s, B(verdict)))
        return out

    def on_validate(self, E, st, f, sub, node):
        pass

    def accept_event(self, E, st, this, args, node):
        return None


def visitor_value(results, target=TGT):
    return obj('ValidationVisitor', m_target=target, m_path=PATH, m_results=results, m_strictTypes=STRICT,
               m_strictDateTime=SDATE, m_regexesCache=ptr(('sym', CACHE)))


def initial(results, con_value=None):
    st = State()
    this = ptr(('sym', T('this')))
    st.store[('sym', T('this'))] = visitor_value(results)
    if results != NULL:
        st.store[RES[1][0]] = obj('ValidationResults', n=I(0), id=T('results'))
    return st, this


def visitors(prog):
    """{short adapter name: {constraint name: visit function}}"""
    out = {}
    for fs in prog.by_cls.values():
        for f in fs:
            if f['cls'] == 'ValidationVisitor' and f.get('body') is not None:
                a = f['clst'].split('<')[1].split(',')[0].split('::')[-1]
                d = out.setdefault(a, {})
                if f['n'] == 'visit':
                    d[f['params'][0]['t'].replace('const ', '').rstrip(' &').split('::')[-1]] = f
                else:
                    d.setdefault('#' + f['n'], f)
    if not out:
        raise AnalysisError('no ValidationVisitor instantiation found')
    return out


def run_visit(prog, check, f, results):
    st, this = initial(results)
    E = Engine(prog, check)
    outs, thrown = E.run(f, st, this, [ptr(('sym', CON))])
    return E, outs, thrown
