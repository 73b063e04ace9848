"""Keyword semantics of the validation visitor: for every keyword, the verdict
as a function of the predicates the code consulted and of the verdicts of the
child validations it requested, compared with the specification of the keyword.
"""
from itertools import product
from ..engine import *
from ..visitor import *

KIND = {}       # constraint class -> spec class


def spec(name):
    def d(c):
        KIND[name] = c
        c.con = name
        return c
    return d


def fld(n):
    return T('.', n, CON)


def first(e):
    return T('.', 'first', e)


def second(e):
    return T('.', 'second', e)


class Spec(VCheck):
    guard = None            # value kind the keyword is restricted to
    weak_exact = False      # lenient mode: applies to real values only
    con = ''

    def __init__(self, prog, f, results):
        VCheck.__init__(self, prog)
        self.reset()
        self.f = f
        self.results = results
        self.mode = 'with results' if results != NULL else 'without results'
        self.conv = []
        self.errs = []
        self.vals = []
        self.cacheins = []

    # --- recorded facts for the other properties
    def conversion(self, E, st, need, node, what):
        if not st.taint:
            self.conv.append((node.get('l'), what, show(need), st.path()))

    def on_validate(self, E, st, f, sub, node):
        if not st.taint:
            self.vals.append((node.get('l'), f, sub, st.path(), dict(st.facts)))

    def error_event(self, E, st, loc, args, node):
        if not st.taint:
            p = E.snap(st, E.content(st, args[0])) if len(args) == 2 else None
            self.errs.append((node.get('l'), p, loc, st.path()))

    def cache_insert(self, E, st, k, v, node):
        if v != T('re', k) and not st.taint:
            self.cacheins.append((node.get('l'), show(k), show(v), st.path()))

    # --- numbers read from text
    WIDTH = {'stoi': 9, 'stol': 18, 'stoll': 18, 'stoul': 19, 'stoull': 19}

    def hook(self, E, st, c, this, args, node):
        n = c['sq'].split('::')[-1]
        if n in ('stoi', 'stol', 'stoll', 'stoul', 'stoull', 'stod', 'stof', 'stold') and c['sq'].startswith('std::') and args:
            self.sites.add((node.get('l'), 'as' + n))
            why = self.text_number(E, st, n, strv(E, st, args[0]))
            if why is None or why[0] == '?':
                if why is not None:
                    self.undecided.add(('conversion', node.get('l'), n + ': ' + why))
            else:
                s2 = st.copy()
                s2.note(node.get('l', ''), '%s throws: %s' % (n, why))
                E.throw(s2, ('exc', 'std::out_of_range' if 'digits' in why else 'std::invalid_argument', S(n + ': ' + why)), node)
        return VCheck.hook(self, E, st, c, this, args, node)

    def text_number(self, E, st, n, t):
        from .. import relang
        from .formats import literal
        if t[0] == 't' and t[1] == 'call' and t[2].endswith('sub_match::str') and len(t) == 4:
            g = t[3]
            g = g[2] if g[0] == 't' and g[1] == '*' else g
            if not (g[0] == 't' and g[1] == 'call' and g[2].endswith('::operator[]') and len(g) == 5 and g[4][0] == 'i' and g[3][0] == 't' and g[3][1] == 'out'):
                return '? unmodelled text'
            m = g[3][3]
            if n not in self.WIDTH:
                return '? floating-point text'
            if st.facts.get(m) is not True:
                return 'the text comes from a match that is not known to have succeeded'
            lits = [l for l in (literal(self.p, x) for x in m[4:]) if l is not None]
            if not lits:
                return '? expression is not a literal'
            try:
                lang, sure = relang.group_lang(lits[0], g[4][1])
                w = relang.difference(lang, relang.parse('[0-9]{1,%d}' % self.WIDTH[n]))
            except relang.Unsupported as e:
                return '? %s' % e
            if w is not None:
                return 'the captured text can be %r (not 1 to %d digits)' % (w, self.WIDTH[n])
            if not sure and st.facts.get(T('.', 'matched', g)) is not True and st.facts.get(T('.', 'matched', T('*', g))) is not True:
                return '? optional group'
            return None
        if t[0] == 's':
            return None if t[1].strip().isdigit() and len(t[1]) < 10 else '? constant text'
        if t == T('strv', TGT):
            return 'the text is the unrestricted instance'
        return '? unmodelled text'

    # --- guard
    def cases(self, st, atoms):
        """Completions of the given type atoms consistent with the axioms."""
        opts = []
        for a in atoms:
            w = implied(st.facts, a) if a[0] == 't' and a[1] in ('is', 'maybe') else st.facts.get(a)
            opts.append((w,) if w is not None else (True, False))
        for c in product(*opts):
            f = dict(st.facts)
            f.update(zip(atoms, c))
            ok = True
            for a in atoms:
                if a[0] == 't' and a[1] in ('is', 'maybe'):
                    g = dict(f)
                    v = g.pop(a)
                    w = implied(g, a)
                    if w is not None and w != v:
                        ok = False
            if ok:
                yield dict(zip(atoms, c))

    def applies(self, st):
        if self.guard is None:
            return {True}
        x, m = self.guard
        res = set()
        ia, ma = isx(TGT, x), maybex(TGT, m)
        for c in self.cases(st, [STRICT, ia, ma]):
            if self.weak_exact or c[STRICT]:
                res.add(c[ia])
            else:
                res.add(c[ma])
        return res

    def run(self):
        try:
            E, outs, thrown = run_visit(self.p, self, self.f, self.results)
        except TooBig as e:
            self.undecided.add(('budget', self.f['loc'], str(e)))
            self.states = 0
            self.E = None
            return self
        self.E = E
        self.states = len(outs)
        self.finals = []
        for s, v in outs:
            if v[0] == 'ptr':
                v = E.content(s, v)
            for s2, b in E.truth(s, v):
                if not feasible(s2):
                    continue
                self.finals.append((s2, b))
                self.final(E, s2, b)
        self.thrown = thrown
        return self

    def final(self, E, st, b):
        ap = self.applies(st)
        if False in ap:
            if not b:
                self.bad(st, 'rejects a value the keyword does not apply to')
            elif ('n', 'val', False) in st.mon:
                self.bad(st, 'a child verdict decides about a value the keyword does not apply to')
        if True in ap:
            self.core(E, st, b)

    def bad(self, st, msg):
        self.report('semantics', self.f['loc'], '%s (%s): %s' % (self.con, self.mode, msg), st)

    def core(self, E, st, b):
        pass

    def F(self, st):
        return st.mon.get(('n', 'val', False), 0)

    def Tn(self, st):
        return st.mon.get(('n', 'val', True), 0)

    def ended(self, E, st, coll):
        return st.mon.get(('end', coll)) or E.known_empty(st, coll)

    def flag(self, st, k, v=True):
        st.mon[k] = v


def rels(st, a, b, flt=False):
    """Possible orderings of a against b on this path."""
    sw = repr(a) > repr(b)
    x, y = (b, a) if sw else (a, b)
    r = st.facts.get(('rel', x, y))
    if r is None:
        r = '<=>'
    if sw:
        r = r.translate(str.maketrans('<>', '><'))
    return [c for c in r if c != 'u']


# ------------------------------------------------------------------- bounds
class Bound(Spec):
    value = limit = None
    excl = None
    upper = True

    def core(self, E, st, b):
        for r in rels(st, self.value, self.limit):
            ex = st.facts.get(self.excl) if self.excl else False
            for e in ((ex,) if ex is not None else (True, False)):
                if self.upper:
                    ok = r == '<' or (r == '=' and not e)
                else:
                    ok = r == '>' or (r == '=' and not e)
                if ok != b:
                    self.bad(st, 'verdict %s when value %s limit%s' % (b, r, ' (exclusive)' if e else ''))


def bound(name, value, limit, upper, guard, excl=None):
    c = type('B' + name, (Bound,), dict(value=value, limit=fld(limit), upper=upper, guard=guard, excl=fld(excl) if excl else None))
    spec(name)(c)


bound('MaximumConstraint', T('num', TGT), 'm_maximum', True, ('Number', 'Double'), 'm_exclusiveMaximum')
bound('MinimumConstraint', T('num', TGT), 'm_minimum', False, ('Number', 'Double'), 'm_exclusiveMinimum')
bound('MaxItemsConstraint', T('size', T('arr', TGT)), 'm_maxItems', True, ('Array', 'Array'))
bound('MinItemsConstraint', T('size', T('arr', TGT)), 'm_minItems', False, ('Array', 'Array'))
bound('MaxPropertiesConstraint', T('size', T('objv', TGT)), 'm_maxProperties', True, ('Object', 'Object'))
bound('MinPropertiesConstraint', T('size', T('objv', TGT)), 'm_minProperties', False, ('Object', 'Object'))
bound('MaxLengthConstraint', T('u8len', T('strv', TGT)), 'm_maxLength', True, ('String', 'String'))
bound('MinLengthConstraint', T('u8len', T('strv', TGT)), 'm_minLength', False, ('String', 'String'))


# --------------------------------------------------------------- combinators
class EachSubschema(Spec):
    """Every subschema of `coll` is validated against the target itself."""
    coll = None

    def decided(self, st):
        """the verdict no longer depends on the remaining subschemas"""
        return False

    def iteration(self, E, st, coll, pos, evs):
        if coll != self.coll:
            return
        sub = T('elem', coll, pos)
        vs = [e for e in evs if e[0] == 'val']
        if not vs and not self.decided(st):
            self.bad(st, 'a subschema is skipped')
        for e in vs:
            if e[2] != sub or e[1] != TGT:
                self.bad(st, 'validates %s against %s instead of the instance against the subschema at hand' % (show(e[1]), show(e[2])))


@spec('AllOfConstraint')
class AllOf(EachSubschema):
    coll = fld('m_subschemas')

    def decided(self, st):
        return self.F(st)

    def core(self, E, st, b):
        if b and (self.F(st) or not self.ended(E, st, self.coll)):
            self.bad(st, 'accepts although a subschema rejected or was not consulted')
        if not b and not self.F(st):
            self.bad(st, 'rejects although no subschema rejected')


@spec('AnyOfConstraint')
class AnyOf(EachSubschema):
    coll = fld('m_subschemas')
    count = {('val', True): 1, ('val', False): 1}

    def decided(self, st):
        return self.Tn(st)

    def core(self, E, st, b):
        if b and not self.Tn(st):
            self.bad(st, 'accepts although no subschema accepted')
        if not b and (self.Tn(st) or not self.ended(E, st, self.coll)):
            self.bad(st, 'rejects although a subschema accepted or was not consulted')


@spec('OneOfConstraint')
class OneOf(EachSubschema):
    coll = fld('m_subschemas')
    count = {('val', True): 2, ('val', False): 1}

    def decided(self, st):
        return self.Tn(st) > 1

    def core(self, E, st, b):
        n = self.Tn(st)
        if b and (n != 1 or not self.ended(E, st, self.coll)):
            self.bad(st, 'accepts with %s accepting subschemas%s' % (('no', 'one', 'two or more')[n], '' if self.ended(E, st, self.coll) else ' before all were consulted'))
        if not b and not (n >= 2 or (n == 0 and self.ended(E, st, self.coll))):
            self.bad(st, 'rejects with %s accepting subschemas' % ('no', 'one', 'two or more')[n])


@spec('NotConstraint')
class Not(Spec):
    count = {('val', True): 1, ('val', False): 1}

    def core(self, E, st, b):
        sub = fld('m_subschema')
        if st.facts.get(T('nonnull', sub)) is False:
            return
        n, f = self.Tn(st), self.F(st)
        if n + f == 0:
            self.bad(st, 'the subschema is not consulted')
        elif n and f:
            return      # contradictory verdicts for one pair: infeasible
        elif b != bool(f):
            self.bad(st, 'verdict is not the negation of the subschema verdict')

    def on_validate(self, E, st, f, sub, node):
        Spec.on_validate(self, E, st, f, sub, node)
        if f['target'] != TGT or sub != fld('m_subschema'):
            self.bad(st, 'validates %s against %s' % (show(f['target']), show(sub)))


@spec('ConditionalConstraint')
class Conditional(Spec):
    def event(self, st, ev):
        Spec.event(self, st, ev)
        if ev[0] == 'val':
            if ev[1] != TGT:
                self.bad(st, 'validates %s instead of the instance' % show(ev[1]))
            st.mon[('sub', ev[2])] = ev[-1]

    def core(self, E, st, b):
        g = lambda n: st.mon.get(('sub', fld(n)))
        i, t, e = g('m_ifSubschema'), g('m_thenSubschema'), g('m_elseSubschema')
        if i is None:
            self.bad(st, "'if' is not consulted")
            return
        br, other, name = (t, e, 'm_thenSubschema') if i else (e, t, 'm_elseSubschema')
        absent = st.facts.get(T('nonnull', fld(name))) is False
        if other is not None:
            self.bad(st, 'the branch not selected is consulted')
        if br is None and not absent:
            self.bad(st, 'the selected branch is not consulted although present')
        if b != (br is not False):
            self.bad(st, 'verdict differs from the verdict of the selected branch')


# ------------------------------------------------------------------- equality
@spec('ConstConstraint')
class Const(Spec):
    count = {('eqv', True): 1, ('eqv', False): 1}
    values = None

    def event(self, st, ev):
        Spec.event(self, st, ev)
        if ev[0] == 'eqv':
            if TGT not in ev[1:3]:
                self.bad(st, 'compares %s with %s instead of the instance' % (show(ev[1]), show(ev[2])))
            if ev[3] != STRICT:
                self.bad(st, 'comparison ignores the configured type strictness')

    def core(self, E, st, b):
        t, f = st.mon.get(('n', 'eqv', True), 0), st.mon.get(('n', 'eqv', False), 0)
        if t + f == 0:
            self.bad(st, 'the expected value is not compared')
        elif t and f:
            return
        elif b != bool(t):
            self.bad(st, 'verdict differs from equality with the expected value')


@spec('EnumConstraint')
class Enum(Const):
    coll = fld('m_enumValues')

    def iteration(self, E, st, coll, pos, evs):
        if coll != self.coll:
            return
        el = T('elem', coll, pos)
        if not st.mon.get(('n', 'eqv', True)) and not any(e[0] == 'eqv' and any(mentions(x, lambda y: y == el) for x in e[1:3]) for e in evs):
            self.bad(st, 'an enumerated value is skipped')

    def core(self, E, st, b):
        t = st.mon.get(('n', 'eqv', True), 0)
        if b and not t:
            self.bad(st, 'accepts although no enumerated value is equal')
        if not b and (t or not self.ended(E, st, self.coll)):
            self.bad(st, 'rejects although an enumerated value is equal or was not compared')


# ----------------------------------------------------------------- arrays
def seg_array(pos):
    return obj('valijson::ValidationResults::Segment', kind=I(0), name=T('str', pos))


@spec('SingularItemsConstraint')
class SingularItems(Spec):
    guard = ('Array', 'Array')
    weak_exact = True
    coll = T('arr', TGT)
    sub = fld('m_itemsSubschema')

    def iteration(self, E, st, coll, pos, evs):
        if coll != self.coll:
            return
        vs = [e for e in evs if e[0] == 'val']
        if not vs and not self.F(st) and st.facts.get(T('nonnull', self.sub)) is not False:
            self.bad(st, 'an array element is skipped')
        for e in vs:
            if e[1] != T('elem', coll, pos) or e[2] != self.sub:
                self.bad(st, 'validates %s against %s' % (show(e[1]), show(e[2])))

    def core(self, E, st, b):
        absent = st.facts.get(T('nonnull', self.sub)) is False
        if b and (self.F(st) or not (absent or self.ended(E, st, self.coll))):
            self.bad(st, 'accepts although an element was rejected or not validated')
        if not b and not self.F(st):
            self.bad(st, 'rejects although every element was accepted')


@spec('ContainsConstraint')
class Contains(Spec):
    guard = ('Array', 'Array')
    coll = T('arr', TGT)
    count = {('val', True): 1, ('val', False): 1}

    def iteration(self, E, st, coll, pos, evs):
        if coll != self.coll:
            return
        vs = [e for e in evs if e[0] == 'val']
        if not vs and not self.Tn(st):
            self.bad(st, 'an array element is skipped')
        for e in vs:
            if e[1] != T('elem', coll, pos) or e[2] != fld('m_subschema'):
                self.bad(st, 'validates %s against %s' % (show(e[1]), show(e[2])))

    def core(self, E, st, b):
        if b and not self.Tn(st):
            self.bad(st, 'accepts although no element matched')
        if not b and (self.Tn(st) or not self.ended(E, st, self.coll)):
            self.bad(st, 'rejects although an element matched or was not tried')


@spec('LinearItemsConstraint')
class LinearItems(Spec):
    guard = ('Array', 'Array')
    arr = T('arr', TGT)
    subs = fld('m_itemSubschemas')
    addl = fld('m_additionalItemsSubschema')

    def must_cover(self, coll):
        return coll != self.arr     # (the start of each part is checked here)

    def on_validate(self, E, st, f, sub, node):
        Spec.on_validate(self, E, st, f, sub, node)
        t = f['target']
        if not (t[0] == 't' and t[1] == 'elem' and t[2] == self.arr):
            self.bad(st, 'validates %s instead of an array element' % show(t))
            return
        pos = t[3]
        if sub[0] == 't' and sub[1] == 'elem' and sub[2] == self.subs:
            if sub[3] != pos:
                self.bad(st, 'element %s is validated against item schema %s' % (show(pos), show(sub[3])))
        elif sub == self.addl:
            if not st.mon.get('addl'):
                n, z = T('size', self.subs), I(0)
                ok = pos == n or (pos == z and E.known_empty(st, self.subs)) or (pos == T('size', self.arr))
                if not ok and pos[0] not in ('ge', 'top'):
                    self.bad(st, 'the additional-items schema starts at element %s instead of the first one without an item schema' % show(pos))
                elif not ok:
                    self.bad(st, 'the additional-items schema starts at an element (%s) not tied to the number of item schemas' % show(pos))
        else:
            self.bad(st, 'validates an element against %s' % show(sub))

    def event(self, st, ev):
        Spec.event(self, st, ev)
        if ev[0] == 'val' and ev[2] == self.addl:
            st.mon['addl'] = True

    def iteration(self, E, st, coll, pos, evs):
        vs = [e for e in evs if e[0] == 'val']
        if coll == self.subs:
            if not vs and '<' in rels(st, pos, T('size', self.arr)) and not self.F(st):
                self.bad(st, 'an array element with an item schema is not validated')
        elif coll == self.arr:
            # inside the additional-items traversal
            if not vs and not self.F(st) and st.facts.get(T('nonnull', self.addl)) is not False:
                self.bad(st, 'an additional item is not validated')

    def core(self, E, st, b):
        n, z = T('size', self.subs), T('size', self.arr)
        r = rels(st, z, n)
        absent = st.facts.get(T('nonnull', self.addl))
        if self.F(st):
            if b:
                self.bad(st, 'accepts although an element was rejected')
            return
        emptyarr = E.known_empty(st, self.arr)
        if b and st.mon.get(('cover', self.subs)) is False:
            self.bad(st, 'accepts although the traversal of the item schemas passes over some')
        done_items = self.ended(E, st, self.subs) or self.ended(E, st, self.arr) or emptyarr
        if b:
            if not done_items:
                self.bad(st, 'accepts before every element with an item schema was validated')
            if not emptyarr and '>' in r and not (self.ended(E, st, self.arr) and st.mon.get('addl')) and not self.no_more(E, st):
                self.bad(st, 'accepts although elements beyond the item schemas were not validated')
        else:
            if absent is False:
                if emptyarr or not ('>' in r):
                    self.bad(st, 'rejects although no element lacks an item schema')
            else:
                self.bad(st, 'rejects although every element was accepted')

    def no_more(self, E, st):
        k, s = E.rel_set(st, T('size', self.arr), T('size', self.subs), False, True)
        return '>' not in s


@spec('UniqueItemsConstraint')
class UniqueItems(Spec):
    covers = False
    guard = ('Array', 'Array')
    arr = T('arr', TGT)
    count = {('eqv', True): 1}

    def event(self, st, ev):
        Spec.event(self, st, ev)
        if ev[0] != 'eqv':
            return
        a, b = ev[1], ev[2]
        for x in (a, b):
            if not (x[0] == 't' and x[1] == 'elem' and x[2] == self.arr):
                self.bad(st, 'compares %s instead of an element' % show(x))
                return
        if a == b:
            self.bad(st, 'compares an element with itself')
        if ev[3] != TRUE:
            self.bad(st, 'elements are not compared strictly')
        st.mon['pairs'] = True
        o, i = a[3], b[3]
        if ('first', o) not in st.mon and ('first', i) not in st.mon:
            st.mon[('first', o)] = True
            if i[0] == 'i' and o[0] == 'i' and i[1] > o[1] + 1 or i[0] == 't' and i[1] == 'add' and i[2] == o and i[3][0] == 'i' and i[3][1] > 1:
                self.bad(st, 'the element following an element is not compared with it')

    def assume(self, E, st, atom, v):
        if not Spec.assume(self, E, st, atom, v):
            return False
        # a traversal that gives up before the last pair: X >= size + k with k < -1
        if atom[0] == 'rel':
            for x, y, r in ((atom[1], atom[2], v), (atom[2], atom[1], v.translate(str.maketrans('<>', '><')))):
                if '>' not in r and x[0] == 't' and x[1] == 'add' and x[2] == T('size', self.arr) and x[3][0] == 'i' and y[0] in ('i', 't', 'ge'):
                    st.mon[('until', x[3][1])] = True
        return True

    def core(self, E, st, b):
        t = st.mon.get(('n', 'eqv', True), 0)
        if t and b:
            self.bad(st, 'accepts although two elements are equal')
        if not t and not b:
            self.bad(st, 'rejects although no two elements were found equal')
        if b and not t:
            u = [k[1] for k in st.mon if k[0] == 'until']
            if st.mon.get('pairs') and not st.mon.get(('end', self.arr)):
                self.bad(st, 'accepts before an element was compared with every later one')
            elif u and max(u) < -1:
                self.bad(st, 'accepts before the last elements were compared')
            elif not u and not st.mon.get('pairs') and not self.ended(E, st, self.arr):
                self.bad(st, 'accepts without comparing the elements')


# ----------------------------------------------------------------- objects
OBJ = T('objv', TGT)


def has(k):
    return T('has', OBJ, k)


def present(E, st, key):
    v = st.facts.get(has(key))
    if v is None and E.known_empty(st, OBJ):
        return False
    return v


@spec('RequiredConstraint')
class Required(Spec):
    guard = ('Object', 'Object')
    coll = fld('m_requiredProperties')

    def assume(self, E, st, atom, v):
        if not Spec.assume(self, E, st, atom, v):
            return False
        if atom[0] == 't' and atom[1] == 'has' and atom[2] == OBJ and v is False and mentions(atom[3], lambda x: x == self.coll):
            st.mon['missing'] = True
        return True

    def look(self, E, st, key):
        v = present(E, st, key)
        if v is None and st.mon.get('missing'):
            return
        if v is None:
            self.bad(st, 'a required name is not looked up')
        elif v is False:
            st.mon['missing'] = True

    def iteration(self, E, st, coll, pos, evs):
        if coll == self.coll:
            self.look(E, st, T('elem', coll, pos))

    def core(self, E, st, b):
        miss = st.mon.get('missing')
        if b and (miss or not self.ended(E, st, self.coll)):
            self.bad(st, 'accepts although a required name is absent or was not looked up')
        if not b and not miss and not (E.known_empty(st, OBJ) and not E.known_empty(st, self.coll)):
            self.bad(st, 'rejects although no required name is absent')


@spec('DependenciesConstraint')
class Dependencies(Spec):
    guard = ('Object', 'Object')
    pd, sd = fld('m_propertyDependencies'), fld('m_schemaDependencies')

    def assume(self, E, st, atom, v):
        if not Spec.assume(self, E, st, atom, v):
            return False
        if atom[0] == 't' and atom[1] == 'has' and atom[2] == OBJ and v is False:
            k = atom[3]
            if k[0] == 't' and k[1] == 'elem' and k[2][0] == 't' and k[2][1] == '.' and k[2][2] == 'second':
                st.mon['missing'] = True
        return True

    def iteration(self, E, st, coll, pos, evs):
        el = T('elem', coll, pos)
        if coll in (self.pd, self.sd):
            v = present(E, st, first(el))
            if v is None:
                self.bad(st, 'the presence of a dependent property is not examined')
            vs = [e for e in evs if e[0] == 'val']
            if coll == self.pd:
                if v is True and not self.ended(E, st, second(el)):
                    self.bad(st, 'dependencies of a present property are not all looked up')
            else:
                if v is True and not vs:
                    self.bad(st, 'the dependent schema of a present property is not applied')
                for e in vs:
                    if v is not True:
                        self.bad(st, 'the dependent schema of an absent property is applied')
                    if e[1] != TGT or e[2] != second(el):
                        self.bad(st, 'validates %s against %s' % (show(e[1]), show(e[2])))
            # inner traversal marks are per element
            st.mon.pop(('end', second(el)), None)
        elif coll[0] == 't' and coll[1] == '.' and coll[2] == 'second' and coll[3][0] == 't' and coll[3][1] == 'elem' and coll[3][2] == self.pd:
            if present(E, st, el) is None:
                self.bad(st, 'a dependency of a present property is not looked up')

    def core(self, E, st, b):
        miss = st.mon.get('missing')
        if b and (miss or self.F(st) or not self.ended(E, st, self.pd) or not self.ended(E, st, self.sd)):
            self.bad(st, 'accepts although a dependency is not met or was not examined')
        if not b and not miss and not self.F(st):
            self.bad(st, 'rejects although every dependency is met')


@spec('PropertyNamesConstraint')
class PropertyNames(Spec):
    guard = ('Object', 'Object')

    def iteration(self, E, st, coll, pos, evs):
        if coll != OBJ:
            return
        vs = [e for e in evs if e[0] == 'val']
        if not vs and not self.F(st):
            self.bad(st, 'a member name is skipped')
        for e in vs:
            if e[1] != T('new', 'StdStringAdapter', first(T('elem', coll, pos))) or e[2] != fld('m_subschema'):
                self.bad(st, 'validates %s against %s' % (show(e[1]), show(e[2])))

    def core(self, E, st, b):
        if b and (self.F(st) or not self.ended(E, st, OBJ)):
            self.bad(st, 'accepts although a member name was rejected or not validated')
        if not b and not self.F(st):
            self.bad(st, 'rejects although every member name was accepted')


@spec('PropertiesConstraint')
class Properties(Spec):
    guard = ('Object', 'Object')
    props, pats, addl = fld('m_properties'), fld('m_patternProperties'), fld('m_additionalProperties')

    def member(self, key):
        return second(T('elem', OBJ, T('find', key)))

    def iteration(self, E, st, coll, pos, evs):
        el = T('elem', coll, pos)
        vs = [e for e in evs if e[0] == 'val']
        ins = [e[1] for e in evs if e[0] == 'ins']
        if coll == self.props:
            v = present(E, st, first(el))
            if v is None:
                self.bad(st, 'the presence of a declared property is not examined')
                return
            if v and not vs:
                self.bad(st, 'a present declared property is not validated')
            if v and first(el) not in ins:
                self.bad(st, 'a present declared property is not recorded as covered')
            if not v and (vs or ins):
                self.bad(st, 'an absent declared property is validated or recorded as covered')
            for e in vs:
                if e[1] != self.member(first(el)) or e[2] != second(el):
                    self.bad(st, 'validates %s against %s' % (show(e[1]), show(e[2])))
            for k in ins:
                if k != first(el):
                    self.bad(st, 'records %s as covered' % show(k))
        elif coll == self.pats:
            if not self.ended(E, st, OBJ) and not self.F(st):
                self.bad(st, 'a pattern is not tried against every member')
            st.mon.pop(('end', OBJ), None)
        elif coll == OBJ:
            name, value = first(el), second(el)
            pat = [k for k in st.mon if k[0] == 'cur' and k[1] == self.pats]
            if pat:
                pe = T('elem', self.pats, pat[0][2])
                m = st.facts.get(T('search', name, T('re', first(pe))))
                if m is None:
                    self.bad(st, 'a member name is not matched against the pattern')
                    return
                if m and not vs:
                    self.bad(st, 'a member matching a pattern is not validated')
                if m and name not in ins:
                    self.bad(st, 'a member matching a pattern is not recorded as covered')
                if not m and (vs or ins):
                    self.bad(st, 'a member not matching the pattern is validated or recorded as covered')
                for e in vs:
                    if e[1] != value or e[2] != second(pe):
                        self.bad(st, 'validates %s against %s' % (show(e[1]), show(e[2])))
                for k in ins:
                    if k != name:
                        self.bad(st, 'records %s as covered' % show(k))
            else:
                cov = [v for k, v in st.facts.items() if k[0] == 't' and k[1] == 'has' and k[3] == name and k[2][0] == 't' and k[2][1] in ('grown', 'new', 'push')]
                c = cov[0] if cov else None
                if c is None and any(v[0] == 't' and v[1] == 'new' and 'set' in str(v[2]) for v in st.store.values()):
                    c = False       # nothing was recorded as covered
                if c is None:
                    self.bad(st, 'whether a member is covered is not examined')
                    return
                absent = st.facts.get(T('nonnull', self.addl)) is False
                if c is False and absent:
                    st.mon['uncovered'] = True
                if c is False and not vs and not absent:
                    self.bad(st, 'a member not covered by properties or patterns is not validated against the additional schema')
                if c and vs:
                    self.bad(st, 'a covered member is validated against the additional schema')
                for e in vs:
                    if e[1] != value or e[2] != self.addl:
                        self.bad(st, 'validates %s against %s' % (show(e[1]), show(e[2])))

    def core(self, E, st, b):
        absent = st.facts.get(T('nonnull', self.addl))
        if self.F(st):
            if b:
                self.bad(st, 'accepts although a member was rejected')
            return
        cover = None     # all members covered?
        for k, v in st.facts.items():
            if k[0] == 'rel':
                a, c = k[1], k[2]
                for x, y, r in ((a, c, v), (c, a, v.translate(str.maketrans('<>', '><')))):
                    if x == T('size', OBJ) and y[0] == 't' and y[1] == 'size' and y[2][0] == 't' and y[2][1] in ('grown', 'new', 'push'):
                        r = r.replace('<', '')      # covered names are member names
                        cover = True if r == '=' else False if r == '>' else None if r else 'infeasible'
        if cover == 'infeasible':
            return
        if E.known_empty(st, OBJ):
            cover = True
        elif cover is None and any(v[0] == 't' and v[1] == 'new' and 'set' in str(v[2]) for v in st.store.values()) is False:
            pass
        if st.mon.get('uncovered'):
            cover = False
        if b:
            if not self.ended(E, st, self.props) or not self.ended(E, st, self.pats):
                self.bad(st, 'accepts before every declared property and pattern was examined')
            if absent is False and cover is not True and not (self.ended(E, st, OBJ) and cover is None and self.saw_cover(st)):
                self.bad(st, 'accepts although a member is not covered and no additional members are allowed')
            if absent is not False and not self.ended(E, st, OBJ) and cover is not True:
                self.bad(st, 'accepts before every remaining member was validated')
        else:
            if absent is not False:
                self.bad(st, 'rejects although every member was accepted')
            elif cover is True:
                self.bad(st, 'rejects although every member is covered')
            elif cover is None and not self.nothing_covered(E, st):
                self.bad(st, 'rejects although no member was found to be uncovered')

    def saw_cover(self, st):
        return False

    def nothing_covered(self, E, st):
        """no member was recorded and the object is not empty"""
        k, s = E.rel_set(st, T('size', OBJ), I(0), False, True)
        return s == '>'


# ------------------------------------------------------------------- strings
@spec('PatternConstraint')
class Pattern(Spec):
    guard = ('String', 'String')

    def core(self, E, st, b):
        m = st.facts.get(T('search', T('strv', TGT), T('re', fld('m_pattern'))))
        if m is None:
            self.bad(st, 'the string is not matched against the pattern of the keyword')
        elif m != b:
            self.bad(st, 'verdict differs from the regular-expression match')


@spec('PolyConstraint')
class Poly(Spec):
    def core(self, E, st, b):
        k = [(a, v) for a, v in st.facts.items() if mentions(a, lambda x: x == TGT) and mentions(a, lambda x: x == CON)]
        if len(k) != 1:
            self.bad(st, 'the user-defined constraint is not consulted exactly once')
        elif k[0][1] != b:
            self.bad(st, 'alters the verdict of the user-defined constraint')


# ------------------------------------------------------------------- numbers
class MultipleOf(Spec):
    guard = ('Number', 'Double')
    div = fld('m_value')

    def applies(self, st):
        res = set()
        ia, ma, mi = isx(TGT, 'Number'), maybex(TGT, 'Double'), maybex(TGT, 'Integer')
        for c in self.cases(st, [STRICT, ia, ma, mi]):
            res.add(c[ia] if c[STRICT] else c[ma] or c[mi])
        return res

    def zero(self, st, t):
        """Orderings of t against zero, or None when never compared."""
        for z in (I(0), ('f', 0.0)):
            for a, b in ((z, t), (t, z)):
                r = st.facts.get(('rel', a, b))
                if r is not None:
                    return '=' if r == '=' else '!' if '=' not in r else '?'
        return None

    def core(self, E, st, b):
        num, i = T('num', TGT), T('int', TGT)
        for v in (i, num, T('trunc', num)):
            z = self.zero(st, v)
            if z == '=' and not b and self.whole(st):
                self.bad(st, 'rejects zero')
            if z == '=' and b:
                return
        for v in (i, T('trunc', num)):
            m = self.zero(st, T('%', v, self.div))
            if m is not None:
                ok = m == '=' and self.whole(st)
                if ok != b and m != '?':
                    self.bad(st, 'verdict differs from divisibility of the integer value')
                return
        if not self.whole(st):
            if b:
                self.bad(st, 'accepts a fractional value as a multiple of an integer')
            return
        q = [T('/', num, self.div), T('/', i, self.div)]
        is_ = lambda what, v: any(st.facts.get(T(what, x)) is v for x in q)
        if is_('finite', False) or is_('isnan', True) or is_('isinf', True):
            if b:
                self.bad(st, 'accepts a value whose quotient is not finite')
            return
        finite = is_('finite', True) or is_('isnan', False) and is_('isinf', False)
        for a, r in st.facts.items():
            if a[0] != 'rel':
                continue
            for x, y, q in ((a[1], a[2], r), (a[2], a[1], r.translate(str.maketrans('<>', '><')))):
                if mentions(y, lambda t: t[0] == 't' and t[1] == 'call' and t[2] in ('round', 'std::round', 'remainder', 'std::remainder', 'fmod', 'std::fmod', 'nearbyint', 'rint')):
                    # x: tolerance, y: deviation
                    if q == '<' and b:
                        self.bad(st, 'accepts although the deviation exceeds the tolerance')
                    if '<' not in q and ('=' in q or '>' in q) and not b:
                        self.bad(st, 'rejects although the deviation is within the tolerance')
                    if b and not finite and 'u' in q:
                        self.bad(st, 'accepts without establishing that the quotient is finite')
                    return
        z = self.zero(st, self.div)
        if z == '=' and not b:
            return
        if b and not st.facts.get('x'):
            self.bad(st, 'accepts without examining the value')

    def whole(self, st):
        num = T('num', TGT)
        for a, b in ((num, T('trunc', num)), (T('trunc', num), num)):
            r = st.facts.get(('rel', a, b))
            if r is not None and '=' not in r:
                return False
        return True


@spec('MultipleOfDoubleConstraint')
class MultipleOfDouble(MultipleOf):
    pass


@spec('MultipleOfIntConstraint')
class MultipleOfInt(MultipleOf):
    pass


# ---------------------------------------------------------------------- type
@spec('TypeConstraint')
class Type(Spec):
    named = fld('m_namedTypes')
    schemas = fld('m_schemaTypes')
    count = {('val', True): 1, ('val', False): 1}

    def iteration(self, E, st, coll, pos, evs):
        if coll == self.schemas:
            vs = [e for e in evs if e[0] == 'val']
            if not vs:
                self.bad(st, 'a schema of the type list is skipped')
            for e in vs:
                if e[1] != TGT or e[2] != T('elem', coll, pos):
                    self.bad(st, 'validates %s against %s' % (show(e[1]), show(e[2])))
        if coll == self.named:
            self.judge(st, T('elem', coll, pos))
            for f in [f for f in st.facts if mentions(f, lambda x: x == TGT)]:
                del st.facts[f]

    def iter_left(self, E, st, coll, pos, evs):
        if coll == self.named:
            self.judge(st, T('elem', coll, pos))

    NAMES = ('any', 'array', 'boolean', 'integer', 'null', 'number', 'object', 'string')

    def codes(self):
        """type name -> enumerator value, as the parser translates it"""
        if not hasattr(self, '_codes'):
            self._codes = {}
            fs = [f for f in self.p.by_cls.get('TypeConstraint', []) or [] if f['n'] == 'jsonTypeFromString']
            fs = fs or [f for q, l in self.p.by_q.items() if q.endswith('::jsonTypeFromString') for f in l]
            if not fs:
                raise AnalysisError('no function translating type names was found')
            for w in self.NAMES:
                E = Engine(self.p, VCheck(self.p))
                E.check.reset()
                vs = {v for s, v in E.run(fs[0], State(), None, [S(w)])[0]}
                if len(vs) == 1:
                    self._codes[list(vs)[0]] = w
            if len(self._codes) != len(self.NAMES):
                self.report('semantics', fs[0]['loc'], 'the type names are not translated to distinct types', State())
        return self._codes

    def judge(self, st, el):
        """Does the value conform to the named type at hand?  Union over completions."""
        names = []
        for code, w in self.codes().items():
            r = rels(st, el, code)
            if r == ['=']:
                names = [w]
                break
            if '=' in r:
                names.append(w)
        if len(names) == 1:
            res = self.conforms(st, names[0])
        else:
            # the type was not distinguished: all possibilities
            res = set()
            for w in names:
                res |= self.conforms(st, w)
        if not names:
            res = {False}
        if res == {True}:
            st.mon['tvalid'] = True
        elif True in res:
            st.mon['tmaybe'] = st.mon.get('tmaybe', frozenset()) | set(names)

    def integral(self, st):
        num = T('num', TGT)
        if st.facts.get(T('finite', num)) is False:
            return False
        for a, r in st.facts.items():
            if a[0] == 'rel' and mentions(a, lambda t: t[0] == 't' and (t[1] == 'trunc' and t[2] == num or t[1] == 'call' and num in t[3:])):
                return True if r == '=' else False if '=' not in r else None
        for a, r in st.facts.items():
            if a[0] == 'rel' and num in a and (a[1][0] == 'f' or a[2][0] == 'f'):
                c = a[1][1] if a[1][0] == 'f' else a[2][1]
                rr = r if a[2] == num else r.translate(str.maketrans('<>', '><'))   # c r num
                if c < -9e18 and rr in ('>',) or c > 9e18 and rr in ('<', '<='):
                    return 'any'        # beyond 64 bits: unspecified
        return None

    def conforms(self, st, w):
        if w == 'any':
            return {True}
        X = {'array': 'Array', 'boolean': 'Bool', 'integer': 'Integer', 'null': 'Null', 'number': 'Number', 'object': 'Object', 'string': 'String'}[w]
        ix = isx(TGT, X)
        if w in ('array', 'object', 'string'):
            return {c[ix] for c in self.cases(st, [ix])}
        m = maybex(TGT, 'Double' if w == 'number' else X)
        res = set()
        dbl = isx(TGT, 'Double')
        for c in self.cases(st, [STRICT, ix, m] + ([dbl] if w == 'integer' else [])):
            if w == 'integer' and not c[ix] and c[dbl]:
                g = self.integral(st)
                if g == 'any':
                    st.mon['tany'] = True
                    return {False}
                for i in ((True, False) if g is None else (g,)):
                    res.add(i or (not c[STRICT] and c[m]))
                continue
            res.add(c[ix] or (not c[STRICT] and c[m]))
        return res

    def core(self, E, st, b):
        v, m = st.mon.get('tvalid'), st.mon.get('tmaybe')
        if st.mon.get('tany') and not v:
            return
        t = self.Tn(st)
        if b and not v and not t:
            if m:
                self.bad(st, 'accepts without establishing that the value has type %s' % '/'.join(sorted(m)))
            else:
                self.bad(st, 'accepts although no listed type fits and no listed schema accepted')
        if not b:
            if v or t:
                self.bad(st, 'rejects although a listed type fits or a listed schema accepted')
            elif m:
                self.bad(st, 'rejects without establishing that the value has none of the types (%s)' % '/'.join(sorted(m)))
            if not self.ended(E, st, self.named) or not self.ended(E, st, self.schemas):
                self.bad(st, 'rejects before every listed type and schema was tried')
