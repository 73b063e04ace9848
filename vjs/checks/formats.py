"""The format keyword: which expression literal is matched (language compared
exactly with a reference written from RFC 3339 / RFC 2673), and which field
values are accepted after a match (path conditions evaluated over the finite
classes of calendar fields)."""
from .. import relang
from ..ir import walk
from ..engine import *
from ..visitor import *
from .visit import KIND, Spec, spec, fld

DATE = '([0-9]{4})-(0[1-9]|1[0-2])-(0[1-9]|[12][0-9]|3[01])'
TIME = '([01][0-9]|2[0-3]):([0-5][0-9]):([0-5][0-9]|60)([.][0-9]+)?'
ZONE = '([Zz]|[-+]([01][0-9]|2[0-3]):[0-5][0-9])'
OCT = '(25[0-5]|2[0-4][0-9]|1[0-9][0-9]|[1-9]?[0-9])'
OCTL = '(25[0-5]|2[0-4][0-9]|[01]?[0-9]?[0-9])'
REF = {('date', True): DATE, ('date', False): DATE,
       ('time', True): TIME + ZONE, ('time', False): TIME + '(' + ZONE + ')?',
       ('date-time', True): DATE + '[Tt]' + TIME + ZONE, ('date-time', False): DATE + '[Tt]' + TIME + '(' + ZONE + ')?'}
IPV4 = ('(' + OCT + '[.]){3}' + OCT, '(' + OCTL + '[.]){3}' + OCTL)
KNOWN = ('date', 'time', 'date-time', 'ipv4')
DPARTS = {'year': (0, 4), 'month': (5, 7), 'day': (8, 10)}
TPARTS = {'hour': (0, 2), 'minute': (3, 5), 'second': (6, 8)}


class Unknown(Exception):
    pass


def shift(parts, k):
    return {n: (a + k, b + k) for n, (a, b) in parts.items()}


def group_roles(lit, fmt):
    d, t = '1987-06-25', '16:52:45.125'
    base, parts = '', {}
    if fmt != 'time':
        base, parts = d, dict(DPARTS)
    if fmt == 'date-time':
        base += 'T'
    if fmt != 'date':
        k = len(base)
        base += t
        parts.update(shift(TPARTS, k))
        z = len(base)
        r = relang.roles(lit, base + 'Z', dict(parts, zone=(z, z + 1)))
        z1 = [g for g, n in r.items() if n == 'zone']
        r = relang.roles(lit, base + '+03:07', dict(parts, sign=(z, z + 1), offh=(z + 1, z + 3), offm=(z + 4, z + 6), offset=(z, z + 6)))
        for g in z1:
            if g not in r:
                r[g] = 'zulu'
            else:
                r[g] = 'zone' if r[g] == 'offset' else '?'
        return r
    return relang.roles(lit, base, parts)


def literal(prog, t):
    """The expression text of a regex term, or None."""
    if t[0] == 't' and t[1] == 'new' and 'regex' in str(t[2]) and len(t) > 3 and t[3][0] == 's':
        if all(x in (I(16), I(0)) for x in t[4:]):
            return t[3][1]
        return None
    if t[0] == 't' and t[1] == 'global' and len(t) > 3:
        return var_literal(prog, t[3], 0)
    return None


def var_literal(prog, vid, d):
    v = prog.vars.get('v%d' % vid)
    if not v or v.get('init') is None or d > 3:
        return None
    strs, flags = [], []
    for x in walk(v['init']):
        if x.get('k') == 'str':
            strs.append(x['v'])
        elif x.get('k') == 'ref' and x.get('dk') in ('global', 'static'):
            if x.get('t', '').startswith(('const char', 'const std::')) and 'option' not in x.get('t', ''):
                s = var_literal(prog, x['d'], d + 1)
                if s is not None:
                    strs.append(s)
        if x.get('cv') and x.get('k') == 'cast':
            flags.append(x['cv'].get('i'))
    if len(strs) != 1 or any(f not in ('16', 16, None) for f in flags):
        return None
    return strs[0]


def matches(st):
    """(term, polarity) of every expression match on the path, in order."""
    out = []
    for a, f in st.facts.items():
        if a[0] == 't' and a[1] == 'call' and a[2] in ('std::regex_match', 'std::regex_search', 'boost::regex_match', 'boost::regex_search'):
            out.append((a, f))
    return out


def regex_of(prog, m):
    if m[3] != T('strv', TGT):
        return None
    for x in m[4:]:
        lit = literal(prog, x)
        if lit is not None:
            return lit
    return None


class Cond:
    """One atomic path condition as a function of the captured fields."""

    def __init__(self, atom, want, match, roles):
        self.vars = set()
        self.match = match
        self.roles = roles
        if atom[0] == 'rel':
            a, b = self.ex(atom[1]), self.ex(atom[2])
            code = '(lambda x, y: "<" if x < y else ">" if x > y else "=")(%s, %s) in %r' % (a, b, want)
        else:
            code = '(%s) == %r' % (self.ex(atom), want)
        self.code = code
        self.fn = eval('lambda v: ' + code, {'rem': rem, 'quo': quo})

    def group(self, t):
        """group number of a sub_match term"""
        if t[0] == 't' and t[1] == '*':
            t = t[2]
        if t[0] == 't' and t[1] == 'call' and t[2].endswith('::operator[]') and t[3] == T('out', 1, self.match) and t[4][0] == 'i':
            return t[4][1]
        raise Unknown(show(t))

    def role(self, t):
        r = self.roles.get(self.group(t))
        if r in (None, '?', 'zone'):
            raise Unknown('group %s' % self.group(t))
        return r

    def text(self, t):
        if t[0] == 't' and t[1] == 'call' and t[2].endswith('::str') and t[2].find('sub_match') >= 0 and len(t) == 4:
            return self.role(t[3])
        raise Unknown(show(t))

    def ex(self, t):
        if t[0] == 'i':
            return '(%d)' % t[1]
        if t[0] != 't':
            raise Unknown(show(t))
        op = t[1]
        if op == 'call' and t[2] in ('std::stoi', 'std::stol', 'std::stoul', 'std::stoll', 'std::stoull', 'std::__cxx11::stoi'):
            if any(x not in (NULL, I(10)) for x in t[4:]):
                raise Unknown('base')
            r = self.text(t[3])
            self.vars.add(r)
            return 'v[%r]' % r
        if op == '.' and t[2] == 'matched':
            r = self.role(t[3])
            self.vars.add(r)
            return '(v[%r] is not None)' % r
        if op == 'eq':
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                if a[0] == 's':
                    r = self.text(b)
                    self.vars.add(r)
                    return '(v[%r] == %r)' % (r, a[1])
        if op in ('+', '-', '*') and len(t) == 4:
            return '(%s %s %s)' % (self.ex(t[2]), op, self.ex(t[3]))
        if op == 'add':
            return '(%s + %s)' % (self.ex(t[2]), self.ex(t[3]))
        if op == '%' and len(t) == 4:
            return 'rem(%s, %s)' % (self.ex(t[2]), self.ex(t[3]))
        if op == '/' and len(t) == 4:
            return 'quo(%s, %s)' % (self.ex(t[2]), self.ex(t[3]))
        if op == '-' and len(t) == 3:
            return '(-%s)' % self.ex(t[2])
        raise Unknown(show(t))


def rem(a, b):
    r = abs(a) % abs(b)
    return -r if a < 0 else r


def quo(a, b):
    q = abs(a) // abs(b)
    return -q if (a < 0) != (b < 0) else q


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def days(y, m):
    return 29 if m == 2 and leap(y) else (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)[m - 1]


DV = {'year', 'month', 'day'}
TV = {'hour', 'minute', 'second', 'zulu', 'sign', 'offh', 'offm', 'offset'}


def dates(conds):
    """{(truth of the date conditions, expected): example}"""
    ys = [c for c in conds if c.vars <= {'year'}]
    mixed = any('year' in c.vars and not c.vars <= {'year'} for c in conds)
    if mixed:
        years = [0, 1, 3, 4, 96, 99, 100, 101, 200, 300, 399, 400, 401, 404, 500, 1600, 1700, 1800, 1900, 1904, 1999, 2000, 2001, 2023, 2024, 2100, 2400, 9900, 9996, 9999]
    else:
        reps = {}
        for y in range(10000):
            reps.setdefault((tuple(c.fn({'year': y}) for c in ys), leap(y)), y)
        years = list(reps.values())
    out = {}
    for y in years:
        for m in range(1, 13):
            for d in range(1, 32):
                v = {'year': y, 'month': m, 'day': d}
                k = (tuple(bool(c.fn(v)) for c in conds), d <= days(y, m))
                if k not in out:
                    out[k] = v
    return out


TCACHE = {}


def times(conds, strict, deep):
    key = (tuple(c.code for c in conds), strict, deep)
    if key not in TCACHE:
        TCACHE[key] = times0(conds, strict, deep)
    return TCACHE[key]


def times0(conds, strict, deep):
    out = {}
    hs = range(24)
    codes = {}
    for c in conds:
        codes.setdefault(c.code, len(codes))
    pos = [codes[c.code] for c in conds]
    fns = [eval('lambda v: ' + c, {'rem': rem, 'quo': quo}) for c in codes]
    ms = range(60) if deep else (0, 1, 29, 30, 31, 58, 59)
    om = range(60) if deep else (0, 1, 29, 30, 31, 58, 59)
    zones = [('z', None, 0, 0)] + ([] if strict else [('', None, 0, 0)])
    zones += [('o', s, h, m) for s in '+-' for h in range(24) for m in om]
    for sec in (0, 1, 30, 59, 60):
        for h in hs if sec == 60 or deep else (0, 12, 22, 23):
            for m in ms if sec == 60 else (0, 30, 58, 59):
                for z, s, oh, o in (zones if sec == 60 else zones[:3] + zones[-1:]):
                    v = {'hour': h, 'minute': m, 'second': sec, 'zulu': 'Z' if z == 'z' else None,
                         'sign': s, 'offh': oh if z == 'o' else None, 'offm': o if z == 'o' else None,
                         'offset': 'x' if z == 'o' else None}
                    k = []
                    for fn in fns:
                        try:
                            k.append(bool(fn(v)))
                        except TypeError:        # number read from a group that did not take part
                            k.append(None)
                    off = (oh * 60 + o) * (-1 if s == '-' else 1)
                    exp = sec != 60 or (h * 60 + m - off) % 1440 == 1439
                    k = (tuple(k), exp)
                    if k not in out:
                        out[k] = v
    return {(tuple(k[i] for i in pos), e): v for (k, e), v in out.items()}


def engine_search(res, prog):
    """DefaultRegexEngine: constructed from the pattern text, search finds a match anywhere."""
    n = 0
    for t, r in prog.rec('DefaultRegexEngine'):
        for f in prog.methods(t):
            if f.get('body') is None:
                continue
            st = State()
            E = Engine(prog, VCheck(prog))
            E.check.reset()
            if f['n'] == 'search' and len(f['params']) == 2:
                s0, r0 = T('subject'), T('engine')
                outs, thrown = E.run(f, st, None, [ptr(('sym', s0)), ptr(('sym', r0))])
                for s, v in outs:
                    for s2, b in E.truth(s, v):
                        if s2.taint:
                            res.undec('regular-expression search: unmodelled value')
                            continue
                        n += 1
                        ms = [(a, x) for a, x in s2.facts.items() if a[0] == 't' and a[1] == 'call' and 'regex_' in a[2]]
                        ok = len(ms) == 1 and ms[0][0][2].endswith('regex_search') and ms[0][0][3] == s0 and mentions(ms[0][0], lambda x: x == r0)
                        if not ok:
                            other = [show(a) for a, _ in ms]
                            if any('regex_match' in o for o in other) or not ms:
                                m = 'the expression engine does not search the whole subject for a match of the pattern (%s)' % ', '.join(other)
                                res.violation(m, f['loc'], m, s2.path())
                            else:
                                res.undec('regular-expression search: %s' % other)
                        elif ms[0][1] != b:
                            m = 'the expression engine inverts the result of the search'
                            res.violation(m, f['loc'], m, s2.path())
    res.need(n, 'DefaultRegexEngine::search')
    res.unit('DefaultRegexEngine::search', n)


@spec('FormatConstraint')
class Format(Spec):
    guard = ('String', 'String')
    weak_exact = True
    deep = False
    lits = {}

    def core(self, E, st, b):
        self.paths = getattr(self, 'paths', [])
        self.paths.append((st, b))

    def run(self):
        Spec.run(self)
        self.fmt_obligations = 0
        self.literals = {}
        if self.E is not None:
            self.decide()
        return self

    def undec(self, what):
        self.undecided.add(('format', self.f['loc'], what))

    def decide(self):
        groups = {}
        for st, b in getattr(self, 'paths', []):
            if st.taint:
                self.undec('path depends on an unmodelled value')
                continue
            eqs = {}
            odd = False
            for a, f in st.facts.items():
                if a[0] == 't' and a[1] == 'eq' and fld('m_format') in a[2:]:
                    o = a[2] if a[3] == fld('m_format') else a[3]
                    if o[0] == 's':
                        eqs[o[1]] = f
                        continue
                if mentions(a, lambda x: x == CON):
                    odd = True
            if odd:
                self.undec('the format name is examined in a way that is not modelled')
                continue
            pos = [n for n, f in eqs.items() if f is True]
            if not pos and any(n not in eqs for n in KNOWN) and b:
                for n in KNOWN:
                    if n not in eqs:
                        groups.setdefault(n, []).append((st, b))
            if not pos:
                self.fmt_obligations += 1
                if not b:
                    self.bad(st, 'a string is rejected for a format name that is not recognised')
            elif pos[0] in KNOWN:
                groups.setdefault(pos[0], []).append((st, b))
            else:
                self.undec('no reference for format %s' % pos[0])
        for n in KNOWN:
            if n not in groups:
                self.undec('no path for format %s' % n)
        for n, paths in groups.items():
            self.decide_format(n, paths)

    def decide_format(self, n, paths):
        checked = {}
        for st, b in paths:
            ms = matches(st)
            sd = st.facts.get(SDATE)
            others = [a for a in st.facts if a != T('is', 'String', TGT) and mentions(a, lambda x: x == T('strv', TGT))
                      and not any(mentions(a, lambda x: x == m) for m, _ in ms)]
            if others:
                self.undec('the text is examined by something other than an expression match')
                continue
            if not ms:
                self.bad(st, 'a string is %s for format %s without being matched against an expression' % ('accepted' if b else 'rejected', n))
                continue
            if len(ms) > 1:
                self.undec('several expressions are matched for format ' + n)
                continue
            m, f = ms[0]
            lit = regex_of(self.p, m)
            if lit is None:
                self.undec('expression of format %s is not a literal' % n)
                continue
            search = m[2].endswith('search')
            self.fmt_obligations += 1
            for strict in ((True, False) if sd is None else (sd,)):
                if not self.language(n, strict, lit, search, st):
                    continue
                if not f:
                    if b:
                        self.bad(st, 'a string that does not match the expression is accepted for format ' + n)
                    continue
                if n == 'ipv4':
                    extra = [a for a in st.facts if mentions(a, lambda x: x == m) and a != m]
                    if extra:
                        self.undec('ipv4 fields are examined after the match')
                    elif not b:
                        self.bad(st, 'a string that matches the expression is rejected for format ipv4')
                    continue
                checked.setdefault((lit, strict, m), []).append((st, b))
        for (lit, strict, m), ps in checked.items():
            self.fields(n, lit, strict, m, ps)

    def language(self, n, strict, lit, search, st):
        key = (n, strict, lit, search)
        if key not in Format.lits:
            try:
                L = relang.parse(lit, search)
                if n == 'ipv4':
                    w = relang.difference(relang.parse(IPV4[0]), L), relang.difference(L, relang.parse(IPV4[1]))
                else:
                    R = relang.parse(REF[n, strict])
                    w = relang.difference(R, L), relang.difference(L, R)
                Format.lits[key] = w
            except relang.Unsupported as e:
                Format.lits[key] = str(e)
        w = Format.lits[key]
        if isinstance(w, str):
            self.undec('expression %s: %s' % (lit, w))
            return False
        self.literals[key] = w
        if w[0] is not None:
            self.bad(st, 'the expression for format %s (%s) does not match %r' % (n, 'strict' if strict else 'permissive', w[0]))
        if w[1] is not None:
            self.bad(st, 'the expression for format %s (%s) matches %r' % (n, 'strict' if strict else 'permissive', w[1]))
        return w == (None, None)

    def fields(self, n, lit, strict, m, ps):
        try:
            roles = group_roles(lit, n)
        except relang.Unsupported as e:
            return self.undec(str(e))
        conds = {}
        plist = []
        for st, b in ps:
            cs = []
            try:
                for a, f in st.facts.items():
                    if a == m or not mentions(a, lambda x: x == m):
                        continue
                    k = (a, f)
                    if k not in conds:
                        conds[k] = Cond(a, f, m, roles)
                    cs.append(k)
            except Unknown as e:
                self.undec('field condition not understood: %s' % e)
                continue
            plist.append((st, b, cs))
        dk = [k for k, c in conds.items() if c.vars <= DV]
        tk = [k for k, c in conds.items() if not c.vars <= DV]
        if any(not conds[k].vars <= TV for k in tk):
            return self.undec('a condition mixes date and time fields')
        D = dates([conds[k] for k in dk]) if n != 'time' else {(tuple(), True): {}}
        Tm = times([conds[k] for k in tk], strict, self.deep) if n != 'date' else {(tuple(), True): {}}
        self.fmt_obligations += len(D) * len(Tm)
        told = set()
        for (dv, de), dx in D.items():
            dt = dict(zip(dk, dv))
            for (tv, te), tx in Tm.items():
                t = dict(dt)
                t.update(zip(tk, tv))
                hit = [(st, b) for st, b, cs in plist if all(t[k] is True for k in cs)]
                if not hit:
                    self.undec('no path for %s' % (n,))
                for st, b in hit:
                    if b != (de and te) and (id(st), b) not in told:
                        told.add((id(st), b))
                        v = {k: x for k, x in dict(dx, **tx).items() if x is not None}
                        self.bad(st, '%s with %s is %s' % (n, ', '.join('%s=%s' % kv for kv in sorted(v.items())), 'accepted' if b else 'rejected'))
