"""Exact comparison of the languages of regular-expression literals.

A literal of the ECMAScript subset used by valijson is parsed (with the Python
parser, whose syntax coincides on that subset) into an NFA over bytes; two
languages are compared through their product automaton.
"""
import warnings
with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    try:
        import re._parser as sre
        import re._constants as C
    except ImportError:          # Python < 3.11
        import sre_parse as sre
        import sre_constants as C

ALL = frozenset(range(256))


class Unsupported(Exception):
    pass


class NFA:
    def __init__(self):
        self.eps = []
        self.tr = []

    def new(self):
        self.eps.append([])
        self.tr.append([])
        return len(self.eps) - 1


def charset(items):
    s = set()
    neg = False
    for op, av in items:
        if op == C.NEGATE:
            neg = True
        elif op == C.LITERAL:
            s.add(av)
        elif op == C.RANGE:
            s.update(range(av[0], av[1] + 1))
        elif op == C.CATEGORY:
            s |= category(av)
        else:
            raise Unsupported(str(op))
    return frozenset(ALL - s) if neg else frozenset(s)


def category(av):
    d = {C.CATEGORY_DIGIT: set(range(48, 58)),
         C.CATEGORY_SPACE: set(b' \t\n\r\f\v'),
         C.CATEGORY_WORD: set(range(48, 58)) | set(range(65, 91)) | set(range(97, 123)) | {95}}
    if av in d:
        return d[av]
    n = {C.CATEGORY_NOT_DIGIT: C.CATEGORY_DIGIT, C.CATEGORY_NOT_SPACE: C.CATEGORY_SPACE, C.CATEGORY_NOT_WORD: C.CATEGORY_WORD}
    if av in n:
        return set(ALL) - d[n[av]]
    raise Unsupported(str(av))


def build(n, tree, a):
    """Append automaton of the item list to state a; returns the end state."""
    for op, av in tree:
        if op == C.LITERAL:
            b = n.new()
            n.tr[a].append((frozenset((av,)), b))
            a = b
        elif op == C.NOT_LITERAL:
            b = n.new()
            n.tr[a].append((ALL - {av}, b))
            a = b
        elif op == C.IN:
            b = n.new()
            n.tr[a].append((charset(av), b))
            a = b
        elif op == C.ANY:
            b = n.new()
            n.tr[a].append((ALL - {10, 13}, b))
            a = b
        elif op == C.SUBPATTERN:
            a = build(n, av[3], a)
        elif op == C.BRANCH:
            e = n.new()
            for alt in av[1]:
                s = n.new()
                n.eps[a].append(s)
                n.eps[build(n, alt, s)].append(e)
            a = e
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = av
            if lo > 40 or (hi != C.MAXREPEAT and hi > 40):
                raise Unsupported('large repetition')
            for _ in range(lo):
                a = build(n, sub, a)
            if hi == C.MAXREPEAT:
                s = n.new()
                n.eps[a].append(s)
                e = build(n, sub, s)
                n.eps[e].append(s)
                b = n.new()
                n.eps[s].append(b)
                a = b
            else:
                end = n.new()
                for _ in range(hi - lo):
                    n.eps[a].append(end)
                    a = build(n, sub, a)
                n.eps[a].append(end)
                a = end
        else:
            raise Unsupported(str(op))
    return a


def parse(lit, search=False):
    """(nfa, start, end) of the strings accepted when the whole subject is
    matched (search: when some part of it is)."""
    try:
        tree = list(sre.parse(lit))
    except Exception as e:
        raise Unsupported(str(e))
    head = bool(tree) and tree[0][0] == C.AT and tree[0][1] == C.AT_BEGINNING
    if head:
        tree = tree[1:]
    tail = bool(tree) and tree[-1][0] == C.AT and tree[-1][1] == C.AT_END
    if tail:
        tree = tree[:-1]
    n = NFA()
    s = n.new()
    if search and not head:
        n.tr[s].append((ALL, s))
        t = n.new()
        n.eps[s].append(t)
        e = build(n, tree, t)
    else:
        e = build(n, tree, s)
    if search and not tail:
        n.tr[e].append((ALL, e))
    return n, s, e


def closure(n, S):
    todo = list(S)
    out = set(S)
    while todo:
        x = todo.pop()
        for y in n.eps[x]:
            if y not in out:
                out.add(y)
                todo.append(y)
    return frozenset(out)


def step(n, S, ch):
    return closure(n, {b for a in S for cs, b in n.tr[a] if ch in cs})


def difference(A, B):
    """A string in L(A) but not in L(B), or None."""
    (n, s, e), (m, t, f) = A, B
    # character classes: representatives
    reps = {}
    sets = list({cs for x in n.tr for cs, _ in x} | {cs for x in m.tr for cs, _ in x})
    for ch in range(256):
        reps.setdefault(tuple(ch in cs for cs in sets), ch)
    chars = sorted(reps.values())
    st = (closure(n, {s}), closure(m, {t}))
    seen = {st: b''}
    todo = [st]
    i = 0
    while i < len(todo):
        x, y = todo[i]
        w = seen[(x, y)]
        i += 1
        if e in x and f not in y:
            return w.decode('latin1')
        if len(todo) > 200000:
            raise Unsupported('too many states')
        for ch in chars:
            p = (step(n, x, ch), step(m, y, ch))
            if not p[0]:
                continue
            if p not in seen:
                seen[p] = w + bytes((ch,))
                todo.append(p)
    return None


def groups(lit):
    """{group number: (min width, max width or None)}"""
    tree = sre.parse(lit)
    out = {}

    def walk(t):
        for op, av in t:
            if op == C.SUBPATTERN:
                if av[0] is not None:
                    lo, hi = av[3].getwidth()
                    out[av[0]] = (lo, None if hi >= C.MAXREPEAT or hi > 1 << 20 else hi)
                walk(av[3])
            elif op == C.BRANCH:
                for a in av[1]:
                    walk(a)
            elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
                walk(av[2])
    walk(tree)
    return out


def group_lang(lit, k):
    """(language of group k, whether the group always takes part in a match)"""
    found = []

    def walk(t, sure):
        for op, av in t:
            if op == C.SUBPATTERN:
                if av[0] == k:
                    found.append((av[3], sure))
                walk(av[3], sure)
            elif op == C.BRANCH:
                for a in av[1]:
                    walk(a, False)
            elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
                walk(av[2], sure and av[0] > 0)
    try:
        walk(sre.parse(lit), True)
    except Exception as e:
        raise Unsupported(str(e))
    if len(found) != 1:
        raise Unsupported('group %d' % k)
    n = NFA()
    s = n.new()
    return (n, s, build(n, list(found[0][0]), s)), found[0][1]


def roles(lit, probe, parts):
    """{group number: role} where the group captures exactly the text of a part."""
    import re
    m = re.fullmatch(lit, probe)
    if not m:
        m = re.search(lit, probe)
    if not m:
        raise Unsupported('the probe %s does not match' % probe)
    out = {}
    for g in range(1, (m.re.groups) + 1):
        for name, (a, b) in parts.items():
            if m.span(g) == (a, b):
                out[g] = name
    return out
