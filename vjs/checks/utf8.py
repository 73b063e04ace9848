"""Character counting: abstract execution of the counting function over texts of
a fixed length with symbolic bytes; every path (a set of admissible values per
byte) is compared with all well-formed UTF-8 texts of that length."""
from ..ir import AnalysisError
from ..engine import *

# lead byte range, ranges of the following bytes (RFC 3629)
CONT = (0x80, 0xBF)
FORMS = [((0x00, 0x7F),), ((0xC2, 0xDF), CONT),
         ((0xE0, 0xE0), (0xA0, 0xBF), CONT), ((0xE1, 0xEC), CONT, CONT), ((0xED, 0xED), (0x80, 0x9F), CONT), ((0xEE, 0xEF), CONT, CONT),
         ((0xF0, 0xF0), (0x90, 0xBF), CONT, CONT), ((0xF1, 0xF3), CONT, CONT, CONT), ((0xF4, 0xF4), (0x80, 0x8F), CONT, CONT)]
TXT = T('text')


class Unknown(Exception):
    pass


class Reads(Check):
    """Follows only paths that some well-formed text takes."""

    def __init__(self, n):
        self.n = n
        self.memo = {}

    def assume(self, E, st, atom, v):
        k = frozenset(st.facts.items())
        if k not in self.memo:
            try:
                adm = admissible(st, self.n)
                self.memo[k] = adm is not None and bool(chars(adm, self.n))
            except Unknown:
                self.memo[k] = True
        return self.memo[k]


def value(t, byte):
    """Value of term t when the single symbolic byte in it is `byte`."""
    if t[0] == 'i':
        return t[1]
    if t[0] == 't' and t[1] == 'elem' and t[2] == TXT:
        return byte - 256 if byte > 127 else byte       # char is signed here
    if t[0] == 't' and t[1] == 'u8':
        return value(t[2], byte) & 0xFF
    if t[0] == 't' and t[1] in ('&', '|', '^', '+', '-', '>>', '<<') and len(t) == 4:
        a, b = value(t[2], byte), value(t[3], byte)
        return {'&': a & b, '|': a | b, '^': a ^ b, '+': a + b, '-': a - b, '>>': a >> b if 0 <= b < 64 else 0, '<<': a << b if 0 <= b < 64 else 0}[t[1]]
    if t[0] == 't' and t[1] == 'add':
        return value(t[2], byte) + value(t[3], byte)
    if t[0] == 't' and t[1] in ('un~',):
        return ~value(t[2], byte)
    raise Unknown(show(t))


def bytes_in(t):
    out = set()
    mentions(t, lambda x: len(x) == 4 and x[0] == 't' and x[1] == 'elem' and x[2] == TXT and out.add(x[3]))
    return out


def admissible(st, n):
    """Per position, the set of byte values for which all path facts hold."""
    adm = [set(range(256)) for _ in range(n)]
    for a, f in st.facts.items():
        bs = bytes_in(a)
        if not bs:
            raise Unknown('condition ' + show(a))
        if len(bs) > 1:
            raise Unknown('condition on two bytes')
        p = next(iter(bs))
        if p[0] != 'i':
            raise Unknown('position')
        if p[1] >= n:
            if p[1] == n and a[0] == 'rel':      # the terminating null
                x, y = value(a[1], 0), value(a[2], 0)
                if ('<' if x < y else '>' if x > y else '=') not in f:
                    return None
                continue
            raise Unknown('reads beyond the text')
        ok = set()
        for b in adm[p[1]]:
            if a[0] == 'rel':
                x, y = value(a[1], b), value(a[2], b)
                if ('<' if x < y else '>' if x > y else '=') in f:
                    ok.add(b)
            else:
                if bool(value(a, b)) == f:
                    ok.add(b)
        adm[p[1]] = ok
    return adm


def chars(adm, n):
    """Numbers of characters of well-formed texts admitted from position 0."""
    todo = [(0, 0, ())]
    res = {}
    seen = set()
    while todo:
        p, c, w = todo.pop()
        if p == n:
            res.setdefault(c, w)
            continue
        if (p, c) in seen:
            continue
        seen.add((p, c))
        for form in FORMS:
            if p + len(form) > n:
                continue
            ex = []
            for i, (lo, hi) in enumerate(form):
                s = [b for b in adm[p + i] if lo <= b <= hi]
                if not s:
                    break
                ex.append(min(s))
            else:
                todo.append((p + len(form), c + 1, w + tuple(ex)))
    return res


def count_check(res, prog, deep):
    fs = [f for f in prog.by_q.get('valijson::utils::u8_strlen', ()) if f.get('body') is not None]
    if not fs:
        raise AnalysisError('no character counting function')
    for f in fs:
        if len(f['params']) != 2:
            res.undec('character counting function takes %d arguments' % len(f['params']))
            continue
        for n in range(0, 7 if deep else 6):
            chk = Reads(n)
            E = Engine(prog, chk)
            E.unroll = True
            st = State()
            try:
                outs, thrown = E.run(f, st, None, [('iter', TXT, I(0)), I(n)])
            except AnalysisError as e:
                res.undec('%s for texts of %d bytes: %s' % (f['n'], n, e))
                continue
            m = 0
            for s, v in outs:
                try:
                    adm = admissible(s, n)
                except Unknown as e:
                    res.undec('%s for texts of %d bytes: %s' % (f['n'], n, e))
                    continue
                if adm is None:
                    continue
                v = E.content(s, v) if v[0] == 'ptr' else v
                if v[0] != 'i':
                    res.undec('%s for texts of %d bytes: result %s' % (f['n'], n, show(v)))
                    continue
                m += 1
                for c, w in chars(adm, n).items():
                    if c != v[1]:
                        msg = '%s counts %d characters in a well-formed text of %d' % (f['n'], v[1], c)
                        res.violation('miscounts well-formed text', f['loc'], msg + ' (bytes %s)' % ' '.join('%02X' % b for b in w), s.path())
                        break
            if thrown:
                for s, e in thrown:
                    try:
                        adm = admissible(s, n)
                        if adm is not None and chars(adm, n):
                            msg = '%s throws for a well-formed text' % f['n']
                            res.violation(msg, f['loc'], msg, s.path())
                    except Unknown as x:
                        res.undec('%s: %s' % (f['n'], x))
            res.unit('%s on texts of %d bytes: %d paths' % (f['n'], n, m), m)
