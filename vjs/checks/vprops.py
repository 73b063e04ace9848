"""Properties decided from the abstract execution of the validation visitor."""
import os
from ..engine import *
from ..visitor import *
from .. import ir
from .visit import KIND, fld, first, second
from . import formats, utf8

STRING_ONLY = {'StdStringAdapter'}       # its containers are constant empty types

BOUNDS = ['MaximumConstraint', 'MinimumConstraint', 'MaxItemsConstraint', 'MinItemsConstraint', 'MaxLengthConstraint',
          'MinLengthConstraint', 'MaxPropertiesConstraint', 'MinPropertiesConstraint']
LOGIC = ['AllOfConstraint', 'AnyOfConstraint', 'OneOfConstraint', 'NotConstraint', 'ConditionalConstraint']
ARRAYS = ['SingularItemsConstraint', 'LinearItemsConstraint', 'ContainsConstraint', 'UniqueItemsConstraint']
OBJECTS = ['PropertiesConstraint', 'PropertyNamesConstraint', 'RequiredConstraint', 'DependenciesConstraint']
EQUAL = ['EnumConstraint', 'ConstConstraint']
MULT = ['MultipleOfDoubleConstraint', 'MultipleOfIntConstraint']
GUARDED = BOUNDS + ARRAYS + OBJECTS + MULT + ['PatternConstraint', 'FormatConstraint']


QUICK = ('NlohmannJsonAdapter', 'GenericRapidJsonAdapter', 'PropertyTreeAdapter')


def in_scope(prog, tier):
    vs = visitors(prog)
    if tier == 'quick' and any(q in vs for q in QUICK):
        vs = {a: d for a, d in vs.items() if a in QUICK}
    return vs


def units(prog, tier, names=None):
    """(adapter, constraint class, function) in scope."""
    vs = in_scope(prog, tier)
    for a in sorted(vs):
        for n in sorted(vs[a]):
            if n[0] == '#' or (names is not None and n not in names):
                continue
            if a in STRING_ONLY and getattr(KIND.get(n), 'guard', None) and KIND[n].guard[0] in ('Array', 'Object'):
                continue
            yield a, n, vs[a][n]


def analyse(res, tier, names=None, modes=(NULL, RES)):
    prog = ir.load()
    seen = set()
    n = 0
    for a, name, f in units(prog, tier, names):
        if name not in KIND:
            raise AnalysisError('no specification for ' + name)
        seen.add(name)
        for m in modes:
            try:
                c = KIND[name](prog, f, m).run()
            except AnalysisError as e:
                res.undec('%s on %s: %s' % (name, a, e))
                continue
            n += 1
            for u in c.undecided:
                res.undec('%s on %s: %s' % (name, a, u[2] if len(u) > 2 else u))
            yield a, name, c
    miss = set(names if names is not None else KIND) - seen
    if miss:
        raise AnalysisError('no visitor function found for ' + ', '.join(sorted(miss)))
    res.need(n, 'visitor functions')


def spec_check(names, kinds=('semantics',)):
    def fn(res, tier):
        for a, name, c in analyse(res, tier, names):
            res.unit('%s, %s, %s: %d paths, %d events' % (name, a, c.mode, c.states, c.nevents), c.states)
            for k, loc, msg, tr in c.viol:
                if k in kinds:
                    res.violation(msg, loc, msg, tr)
    return fn


def bounds(res, tier):
    spec_check(BOUNDS)(res, tier)
    utf8.count_check(res, ir.load(), tier == 'thorough')


def strings(res, tier):
    formats.Format.deep = tier == 'thorough'
    formats.engine_search(res, ir.load())
    for a, name, c in analyse(res, tier, ['PatternConstraint', 'FormatConstraint']):
        n = getattr(c, 'fmt_obligations', 0)
        res.unit('%s, %s, %s: %d paths, %d format obligations' % (name, a, c.mode, c.states, n), c.states + n)
        for k in getattr(c, 'literals', {}):
            res.count('expressions compared with the reference language: %s %s' % (k[0], 'strict' if k[1] else 'permissive'))
        for k, loc, msg, tr in c.viol:
            if k == 'semantics':
                res.violation(msg, loc, msg, tr)


# ------------------------------------------------------------- errors/verdict
def errors_match(res, tier):
    prog = ir.load()
    for a, name, c in analyse(res, tier, modes=(RES,)):
        n = 0
        if name == 'PolyConstraint':
            continue            # user code records its own errors
        for st, b in c.finals:
            if st.taint:
                continue
            n += 1
            k = getf(st.store[RES[1][0]], 'n')
            if b and k != I(0):
                m = '%s accepts the value but has recorded an error' % name
                res.violation(m, c.f['loc'], m, st.path())
            if not b and k == I(0):
                m = '%s rejects the value without recording an error' % name
                res.violation(m, c.f['loc'], m, st.path())
        res.unit('%s, %s: %d paths' % (name, a, n), n)
    for a, c in schema_walks(res, tier, (RES,)):
        for st, b in c.finals:
            k = getf(st.store[RES[1][0]], 'n')
            if b and k != I(0) or not b and k == I(0):
                m = 'validating against a schema %s' % ('accepts but records an error' if b else 'rejects without recording an error')
                res.violation(m, c.f['loc'], m, st.path())
        res.unit('schema traversal, %s: %d paths' % (a, len(c.finals)), len(c.finals))


class Walk(VCheck):
    analysing_validate = True
    count = {('acc', True): 1, ('acc', False): 1}

    def __init__(self, prog, f, results):
        VCheck.__init__(self, prog)
        self.reset()
        self.f, self.results = f, results
        self.mode = 'with results' if results != NULL else 'without results'

    def accept_event(self, E, st, this, args, node):
        con = E.content(st, this) if this[0] == 'ptr' else this
        con = E.snap(st, con)
        f = self.visitor_fields(E, st, args[0])
        if f['target'] != TGT or f['results'] != self.results or f['path'] != PATH:
            self.report('walk', node.get('l', ''), 'a constraint is checked against something other than the instance at hand', st)
        out = []
        for v in (True, False):
            s = st.copy()
            r = f['results']
            if not v and r[0] == 'ptr':
                E.storev(s, r[1], setf(E.load(s, r[1]), 'n', I(1)), node)
            self.event(s, ('acc', con, v))
            s.note(node.get('l', ''), 'a constraint is %s' % ('satisfied' if v else 'violated'))
            out.append((s, B(v)))
        return out

    CONS = T('.', 'm_constraints', T('sub'))

    def iteration(self, E, st, coll, pos, evs):
        if coll[0] == 't' and coll[1] == '.' and coll[3] == T('sub'):
            es = [e for e in evs if e[0] == 'acc']
            el = T('elem', coll, pos)
            if not es and (self.results != NULL or not st.mon.get(('n', 'acc', False))):
                self.report('walk', self.f['loc'], 'a constraint of the schema is skipped', st)
            for e in es:
                if not mentions(e[1], lambda x: x == el):
                    self.report('walk', self.f['loc'], 'checks another constraint than the one at hand', st)

    def run(self):
        st, this = initial(self.results)
        E = Engine(self.p, self)
        outs, thrown = E.run(self.f, st, this, [ptr(('sym', T('sub')))])
        self.thrown = thrown
        self.finals = []
        for s, v in outs:
            for s2, b in E.truth(s, v):
                if s2.taint:
                    self.undecided.add(('taint', '', sorted(map(str, s2.taint))[0]))
                elif feasible(s2):
                    self.finals.append((s2, b))
        self.E = E
        return self


def schema_walks(res, tier, modes=(NULL, RES)):
    prog = ir.load()
    vs = in_scope(prog, tier)
    n = 0
    for a in sorted(vs):
        f = vs[a].get('#validateSchema')
        if not f:
            continue
        for m in modes:
            try:
                c = Walk(prog, f, m).run()
            except AnalysisError as e:
                res.undec('schema traversal on %s: %s' % (a, e))
                continue
            n += 1
            for u in c.undecided:
                res.undec('schema traversal on %s: %s' % (a, u[2]))
            yield a, c
    res.need(n, 'schema traversal')


def traversal(res, tier):
    prog = ir.load()
    for a, c in schema_walks(res, tier):
        for k, loc, msg, tr in c.viol:
            res.violation(msg, loc, msg, tr)
        for st, b in c.finals:
            inv = st.facts.get(T('.', 'm_alwaysInvalid', T('sub')))
            f, t = st.mon.get(('n', 'acc', False)), st.mon.get(('n', 'acc', True))
            end = any(k[0] == 'end' and mentions(k[1], lambda x: x == T('sub')) for k in st.mon)
            msg = None
            if inv:
                msg = 'accepts although the schema permits no value' if b else None
            elif b and f:
                msg = 'accepts although a constraint was violated'
            elif b and inv is None:
                msg = 'accepts without examining whether the schema permits no value'
            elif b and not end:
                msg = 'accepts before every constraint was checked'
            elif not b and not f:
                msg = 'rejects although no constraint was violated'
            elif not end and c.results != NULL:
                msg = 'stops at the first violated constraint although results are collected'
            if msg:
                msg = 'schema traversal (%s): %s' % (c.mode, msg)
                res.violation(msg, c.f['loc'], msg, st.path())
        res.unit('schema traversal, %s, %s: %d paths' % (a, c.mode, len(c.finals)), len(c.finals))
    dispatch(res, prog)


class Accept(Check):
    def __init__(self):
        self.seen = []

    def hook(self, E, st, c, this, args, node):
        if c['n'] == 'visit' and c.get('virt'):
            out = []
            pt = c.get('pt') or []
            for v in (True, False):
                s = st.copy()
                s.mon['visit'] = s.mon.get('visit', ()) + ((c['id'], args[0], v),)
                out.append((s, B(v)))
            return out
        return None


def dispatch(res, prog):
    """Every concrete constraint hands itself to the visitor overload of its own class."""
    roots = [t for t, r in prog.rec('Constraint') if '/constraints/' in r['loc']]
    res.need(len(roots), 'the constraint base class')
    over = {}
    for t, r in prog.rec('ConstraintVisitor'):
        for f in prog.methods(t, 'visit'):
            over[f['id']] = f['params'][0]['t']
        for m in r['methods']:
            if m['n'] == 'visit':
                over[m['id']] = m['params'][0]
    n = 0
    for t in prog.subclasses(roots[0]):
        r = prog.records[t]
        if prog.subclasses(t) or '/constraints/' not in r['loc']:
            if not (r['n'] == 'PolyConstraint'):
                continue
        acc = None
        for b in [t] + prog.bases(t):
            fs = [f for f in prog.methods(b, 'accept') if f.get('body')]
            if fs:
                acc = fs[0]
                break
        if acc is None:
            res.undec('no accept function for ' + t)
            continue
        E = Engine(prog, Accept())
        st = State()
        outs, thrown = E.run(acc, st, ptr(('sym', CON)), [ptr(('sym', T('visitor')))])
        for s, v in outs:
            for s2, b in E.truth(s, v):
                ev = s2.mon.get('visit', ())
                key = 'constraint %s' % r['n']
                if len(ev) != 1:
                    res.violation(key + ' count', acc['loc'], '%s is handed to the visitor %d times' % (r['n'], len(ev)))
                    continue
                fid, arg, verdict = ev[0]
                if str(over.get(fid, fid)).replace('const ', '').rstrip(' &').split('::')[-1] != r['n']:
                    res.violation(key + ' overload', acc['loc'], '%s is handed to the overload %s' % (r['n'], over.get(fid, fid)))
                if arg[0] != 'ptr' or arg[1][0] != ('sym', CON):
                    res.violation(key + ' self', acc['loc'], '%s hands something other than itself to the visitor' % r['n'])
                if b != verdict:
                    res.violation(key + ' verdict', acc['loc'], '%s alters the verdict of the visitor' % r['n'])
        n += 1
        res.unit('%s hands itself to the visitor (%s)' % (r['n'], acc['q'][:80]), len(outs))
    res.need(n, 'constraint classes')


# --------------------------------------------------------------- two modes
def compatible(f, g):
    for k, v in f.items():
        w = g.get(k)
        if w is None or w == v:
            continue
        if isinstance(v, str) and isinstance(w, str) and set(v) & set(w):
            continue
        return False
    return True


def modes_agree(res, tier):
    runs = {}
    for a, name, c in analyse(res, tier):
        runs.setdefault((a, name), []).append(c)
    for (a, name), cs in sorted(runs.items()):
        if len(cs) != 2 or name == 'PolyConstraint':
            continue
        n, r = cs
        vn = {v[2].replace('without results', '*') for v in n.viol}
        vr = {v[2].replace('with results', '*') for v in r.viol}
        loops = any(k[0] in ('cur', 'end') or k[:2] == ('n', 'val') for c in cs for s, _ in c.finals for k in s.mon if isinstance(k, tuple))
        pairs = 0
        for m in vn ^ vr:
            msg = m.replace('(*)', '(only %s)' % ('without results' if m in vn else 'with results'))
            res.violation(msg, n.f['loc'], msg, [v[3] for c in cs for v in c.viol if v[2].replace('without results', '*').replace('with results', '*') == m][:1][0])
        if not loops:
            for s, b in n.finals:
                if s.taint:
                    continue
                for s2, b2 in r.finals:
                    if b != b2 and not s2.taint:
                        pairs += 1
                        if compatible(s.facts, s2.facts) and joint(s, s2):
                            msg = '%s: the verdict is %s without results and %s with results for one value' % (name, b, b2)
                            res.violation(msg, n.f['loc'], msg, s.path() + ['--- with results:'] + s2.path())
        res.unit('%s, %s: %d + %d paths, %d differing pairs shown incompatible' % (name, a, len(n.finals), len(r.finals), pairs),
                 len(n.finals) + len(r.finals))
    for a, c in schema_walks(res, tier):
        res.unit('schema traversal, %s, %s' % (a, c.mode), len(c.finals))
        for st, b in c.finals:
            if b != (not st.mon.get(('n', 'acc', False)) and st.facts.get(T('.', 'm_alwaysInvalid', T('sub'))) is not True):
                msg = 'schema traversal %s: the verdict is not the conjunction of the constraint verdicts' % c.mode
                res.violation(msg, c.f['loc'], msg, st.path())


def joint(s, s2):
    m = s.copy()
    for k, v in s2.facts.items():
        w = m.facts.get(k)
        if isinstance(w, str) and isinstance(v, str):
            v = ''.join(c for c in '<=>u' if c in w and c in v)
        m.facts[k] = v
    for k, v in list(m.facts.items()):
        if k[0] == 't' and k[1] in ('is', 'maybe'):
            g = dict(m.facts)
            del g[k]
            w = implied(g, k)
            if w is not None and w != v:
                return False
    return feasible(m)


# ------------------------------------------------------------- exceptions
def no_throw(res, tier):
    for a, name, c in analyse(res, tier):
        for l, what, need, tr in c.conv:
            msg = '%s: %s() is called without establishing %s' % (name, what, need)
            res.violation('%s %s %s' % (name, what, need), l, msg, tr)
        for t in c.thrown or []:
            st, e = t
            if st.taint:
                res.undec('%s on %s: possible exception %s' % (name, a, show(e)[:80]))
                continue
            if not feasible(st):
                continue
            if absent_subschema(st):
                continue
            msg = '%s: an exception leaves validation' % name
            res.violation(msg, c.f['loc'], msg + ': ' + show(e)[:120], st.path())
        res.unit('%s, %s, %s: %d conversion sites, %d paths' % (name, a, c.mode, len([s for s in c.sites if s[1][:2] == 'as' or s[1][:3] == 'get']), c.states), max(1, len(c.sites)))
        res.count('conversion sites', len([s for s in c.sites if s[1][:2] == 'as' or s[1][:3] == 'get']))


def absent_subschema(st):
    """hand-built constraints without their mandatory subschema are out of scope"""
    return any(k[0] == 't' and k[1] == 'nonnull' and v is False for k, v in st.facts.items())


# ---------------------------------------------------------------- locations
def is_child(t):
    return t[0] == 't' and t[1] in ('elem', 'member')


def segment_for(t):
    """Path segment by which the value term t is reached from the instance, or None."""
    if t[0] == 't' and t[1] == 'elem' and t[2] == T('arr', TGT):
        return ('array', t[3])
    if t[0] == 't' and t[1] == '.' and t[2] == 'second' and t[3][0] == 't' and t[3][1] == 'elem' and t[3][2] == T('objv', TGT):
        pos = t[3][3]
        if pos[0] == 't' and pos[1] == 'find':
            return ('object', (pos[2], first(t[3])))
        return ('object', (first(t[3]),))
    return None


def seg_ok(p, t):
    """Is p = PATH + the segment of t?"""
    w = segment_for(t)
    if w is None:
        return None
    if not (p[0] == 't' and p[1] == 'push' and p[2] == PATH and p[3][0] == 'obj'):
        return False
    k, n = getf(p[3], 'kind'), getf(p[3], 'name')
    if w[0] == 'array':
        pos = w[1]
        return k == I(0) and (n == T('str', pos) or (pos[0] == 'i' and n == S(str(pos[1]))))
    return k == I(1) and n in w[1]


def locations(res, tier):
    for a, name, c in analyse(res, tier, modes=(RES,)):
        n = 0
        for l, f, sub, tr, facts in c.vals:
            t, p = f['target'], f['path']
            if f['results'] == NULL:
                continue
            n += 1
            if t == TGT:
                ok = p == PATH
            elif t[0] == 't' and t[1] == 'new' or segment_for(t) is None:
                # a value that is not part of the instance (a property name): reported at the instance
                ok = p == PATH if segment_for(t) is None else True
            else:
                ok = seg_ok(p, t)
            if not ok:
                msg = '%s: %s is validated with error location %s' % (name, show(t)[:80], show(p)[:120])
                res.violation('%s: child location' % name, l, msg, tr)
        for l, p, loc, tr in c.errs:
            n += 1
            if p is None or p == PATH:
                continue
            good = any(seg_ok(p, f['target']) for _, f, _, _, _ in c.vals)
            if not good:
                msg = '%s: an error is recorded at %s' % (name, show(p)[:120])
                res.violation('%s: error location' % name, l, msg, tr)
        res.unit('%s, %s: %d error and child locations' % (name, a, n), n)
        res.count('locations', n)
    from .results import rendering
    rendering(res)


# -------------------------------------------------------------- configuration
def config(res, tier):
    prog = ir.load()
    for a, name, c in analyse(res, tier):
        n = 0
        for l, f, sub, tr, facts in c.vals:
            n += 1
            for k, want in (('strict', STRICT), ('sdate', SDATE)):
                if f[k] != want:
                    msg = '%s: a child is validated with %s = %s instead of the configured value' % (name, {'strict': 'type strictness', 'sdate': 'date strictness'}[k], show(f[k])[:80])
                    res.violation('%s: %s' % (name, k), l, msg, tr)
            if f['cache'] != ptr(('sym', CACHE)):
                msg = '%s: a child is validated with another regular-expression cache' % name
                res.violation('%s: cache' % name, l, msg, tr)
        for l, k, v, tr in c.cacheins:
            msg = '%s: the expression cached under %s is %s' % (name, k, v)
            res.violation('%s: cache key' % name, l, msg, tr)
        if n or c.cacheins:
            res.unit('%s, %s, %s: %d child validations' % (name, a, c.mode, n), n)
            res.count('child validations', n)
    res.need(res.counts.get('child validations', 0), 'child validations')
    entry(res, prog)


class Entry(VCheck):
    def __init__(self, prog):
        VCheck.__init__(self, prog)
        self.reset()
        self.vals = []

    def validate_event(self, E, st, this, args, node):
        f = self.visitor_fields(E, st, this)
        out = []
        for v in (True, False):
            s = st.copy()
            s.mon['verdict'] = s.mon.get('verdict', ()) + (v,)
            out.append((s, B(v)))
        self.vals.append((node.get('l'), f, args[0], st.path(), st.taint))
        return out


def entry(res, prog):
    """ValidatorT::validate passes the configuration and the verdict through."""
    n = 0
    for fs in prog.by_cls.values():
        for f in fs:
            if f['cls'] != 'ValidatorT' or f.get('body') is None:
                continue
            if f['n'] == 'validate':
                n += 1
                entry_one(res, prog, f)
            elif f['n'] == 'ValidatorT' and len(f['params']) >= 1 and 'TypeCheckingMode' in f['params'][0]['t']:
                ctor(res, prog, f)
    res.need(n, 'the validation entry point')


def entry_one(res, prog, f):
    c = Entry(prog)
    st = State()
    this = ptr(('sym', T('validator')))
    st.store[this[1][0]] = obj('ValidatorT', strictTypes=STRICT, strictDateTime=SDATE, regexesCache=CACHE)
    E = Engine(prog, c)
    schema, target, results = ptr(('sym', T('schema'))), ptr(('sym', TGT)), ptr(('sym', T('results')))
    outs, thrown = E.run(f, st, this, [schema, target, results])
    w = f['loc']
    for l, v, sub, tr, taint in c.vals:
        if taint:
            res.undec('validation entry: ' + ','.join(map(str, taint)))
            continue
        for k, want in (('target', TGT), ('results', results), ('strict', STRICT), ('sdate', SDATE)):
            if v[k] != want:
                res.violation('entry ' + k, l, 'the validation entry point passes %s = %s' % (k, show(v[k])[:100]), tr)
        if v['cache'][0] == 'ptr' and v['cache'] != ptr(('sym', CACHE)) and E.snap(st, E.load(st, v['cache'][1])) != CACHE:
            res.violation('entry cache', l, 'the validation entry point passes another expression cache (%s)' % show(v['cache'])[:80], tr)
        if v['path'][0] == 't' and v['path'][1] in ('push', '.'):
            res.violation('entry path', l, 'root errors are reported at %s' % show(v['path'])[:80], tr)
        if not (sub[0] == 'ptr' and sub[1][0] == ('sym', T('schema'))):
            res.violation('entry schema', l, 'validation starts at another schema', tr)
    for s, v in outs:
        for s2, b in E.truth(s, v):
            ev = s2.mon.get('verdict', ())
            if s2.taint:
                continue
            if len(ev) != 1:
                res.violation('entry count', w, 'the instance is validated %d times' % len(ev), s2.path())
            elif ev[0] != b:
                res.violation('entry verdict', w, 'the verdict is altered at the entry point', s2.path())
    res.unit('validation entry point, %s' % f['q'][:90], len(outs))


def ctor(res, prog, f):
    enums = {}
    for code in (0, 1):
        for dcode in ((0, 1) if len(f['params']) > 1 else (None,)):
            E = Engine(prog, Check())
            st = State()
            this = ptr(('sym', T('validator')))
            args = [I(code)] + ([I(dcode)] if dcode is not None else [])
            outs, thrown = E.run(f, st, this, args)
            for s, v in outs:
                o = E.load(s, this[1])
                enums[(code, dcode)] = (getf(o, 'strictTypes'), getf(o, 'strictDateTime'))
    res.samples.append(str({k: tuple(show(x) for x in v) for k, v in enums.items()}))
    for (code, dcode), (t, d) in enums.items():
        if t[0] == 'b' and t[1] != (code == 0):
            res.violation('ctor types', f['loc'], 'type checking mode %d yields strict types = %s' % (code, t[1]))
        if dcode is not None and d[0] == 'b' and d[1] != (dcode == 0):
            res.violation('ctor dates', f['loc'], 'date mode %d yields strict dates = %s' % (dcode, d[1]))
    res.unit('validator constructor', len(enums))


# ---------------------------------------------------------------- absent objects
OPTIONAL = ('m_thenSubschema', 'm_elseSubschema', 'm_additionalItemsSubschema', 'm_additionalProperties')


def no_absent(res, tier):
    tested, maybe = {}, []
    for a, name, c in analyse(res, tier):
        for (l, why), tr in c.absent.items():
            res.violation('%s uses %s' % (name, why), l, '%s: %s is used' % (name, why), tr)
        tested.setdefault(name, set()).update(c.tested)
        maybe += [(name, v, l, tr) for (v, l), tr in c.maybe.items() if tr is not None]
        res.unit('%s, %s, %s: %d places' % (name, a, c.mode, len(c.used)), len(c.used))
    for name, v, l, tr in maybe:
        if v in tested[name] or v[1] == '.' and v[2] in OPTIONAL:
            res.violation('%s uses %s' % (name, show(v)), l, '%s: %s is used on a path on which it has not been shown to be present' % (name, show(v)), tr)
