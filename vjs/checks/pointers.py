"""JSON Pointers: decoding of reference tokens and the steps they take."""
from ..engine import *
from ..visitor import *
from ..words import Words, code
from .. import ir
from .lookups import entry

NODE = T('node')


class Pointer(Words, VCheck):
    def __init__(self, prog):
        VCheck.__init__(self, prog)
        self.reset()
        self.bad = []

    def hook(self, E, st, c, this, args, node):
        r = self.words(E, st, c, this, args, node)
        if r is not None:
            return r
        return VCheck.hook(self, E, st, c, this, args, node)

    def bad_access(self, msg, node, st):
        self.bad.append((msg, node.get('l'), st.path()))


def run(prog, f, args, word):
    c = Pointer(prog)
    st = State()
    st.store[('sym', T('pointer'))] = S(word)
    st.store[('sym', NODE)] = NODE
    E = Engine(prog, c)
    E.unroll = True
    outs, thrown = E.run(f, st, None, args)
    return c, E, outs, thrown


HEX = '0123456789abcdefABCDEF'
OTHER = chr(0x100)                  # stands for any character the code does not mention


def decoded(w):
    """The reference token w after decoding, None if its encoding is invalid."""
    out, i = '', 0
    while i < len(w):
        if w[i] == '%':
            h = w[i + 1:i + 3]
            if len(h) < 2 or h[0] not in HEX or h[1] not in HEX:
                return None
            out += chr(int(h, 16))
            i += 3
        else:
            out += w[i]
            i += 1
    return out.replace('~1', '/').replace('~0', '~')


def signed(v):
    return v[0] == 's' and ''.join(chr(ord(x) & 255) if ord(x) < 256 else x for x in v[1])


UNITS = [OTHER, '~', '~0', '~1', '0', '1', '%', '%7', '%7E', '%7e', '%25', '%41', '%2F', '%30', '%31', '%zz', '% 1', '%+1', '%0x', 'f', '-', '%f1']
TOKENS = ['', OTHER, '0', '1', '2', '12', '-', '-1', '+1', ' 1', '1 ', '1' + OTHER, '0x1', '~1', '~0', '~01', '%41', '%31', '%', '1.0', '9' * 24, '18446744073709551616', '4294967297']


def extraction(res, prog, tier):
    f = entry(prog, 'extractReferenceToken')
    if f is None:
        res.undec('extractReferenceToken: not found')
        return
    words = {''}
    for _ in range(3 if tier == 'thorough' else 2):
        words |= {w + u for w in words for u in UNITS}
    n = 0
    for w in sorted(words, key=lambda w: (len(w), w)):
        # the characters around the token are not part of it
        t = S('~%/' + w + '/1%41')
        want = decoded(w)
        try:
            c, E, outs, thrown = run(prog, f, [('iter', t, I(3)), ('iter', t, I(3 + len(w)))], t[1])
        except ir.AnalysisError as e:
            res.undec('extractReferenceToken(%r): %s' % (w, e))
            continue
        n += 1
        w = w.replace(OTHER, '?')
        for m, l, p in c.bad:
            res.violation('extractReferenceToken/access', l or f['loc'], 'decoding %r: %s' % (w, m[11:]), p)
        for st, v in outs:
            v = E.snap(st, v)
            if st.taint or v[0] != 's':
                res.undec('extractReferenceToken(%r): result %s' % (w, show(v)[:60]))
            elif want is None:
                res.violation('extractReferenceToken/invalid', f['loc'], 'the invalid encoding in %r is accepted (as %r)' % (w, signed(v)), st.path())
            elif signed(v) != want:
                res.violation('extractReferenceToken/result', f['loc'], 'the token %r is decoded to %r instead of %r' % (w, signed(v), want), st.path())
        if want is not None and (thrown or not outs) and not c.bad:
            res.violation('extractReferenceToken/refused', f['loc'], 'the valid token %r is refused' % w, thrown[0][0].path() if thrown else ())
    res.unit('extractReferenceToken: words over %d units' % len(UNITS), n)


class Unknown(Exception):
    pass


def fact(st, *atoms):
    for a in atoms:
        if a in st.facts:
            return st.facts[a]
    return None


def kinds(st, node):
    """The kinds the value may have on a path."""
    out = []
    for k, truths in (('array', {'isA': True, 'maybeA': True, 'isO': False}), ('object', {'isA': False, 'isO': True, 'maybeO': True}),
                      ('scalar', {'isA': False, 'isO': False})):
        f = {'isA': fact(st, isx(node, 'Array')), 'isO': fact(st, isx(node, 'Object')), 'maybeA': fact(st, maybex(node, 'Array')),
             'maybeO': fact(st, maybex(node, 'Object'))}
        if all(f[a] is None or f[a] == v for a, v in truths.items()):
            out.append(k)
    return out


def linear(x, size):
    """c with x = size + c, or None."""
    if x == size:
        return 0
    if x[0] == 't' and x[1] in ('add', 'sub') and len(x) == 4 and x[3][0] == 'i':
        c = linear(x[2], size)
        return None if c is None else c + (x[3][1] if x[1] == 'add' else -x[3][1])
    return None


def possible(st, size, i):
    """Representative element counts that satisfy the facts of a path; the
    relations are between the count, plus a constant, and constants."""
    rels = []
    for a, v in st.facts.items():
        if not mentions(a, lambda x: x == size):
            continue
        if a[0] == 'rel' and a[1][0] == 'i' and linear(a[2], size) is not None:
            rels.append((a[1][1], linear(a[2], size), v, True))
        elif a[0] == 'rel' and a[2][0] == 'i' and linear(a[1], size) is not None:
            rels.append((a[2][1], linear(a[1], size), v, False))
        else:
            raise Unknown('relation %s' % show(a)[:80])
    cand = {0, 1, i - 1, i, i + 1, i + 2, 1 << 62, (1 << 63) - 1}
    for k, c, _, _ in rels:
        cand |= {k - c - 1, k - c, k - c + 1}
    ok = []
    for n in sorted(x for x in cand if 0 <= x < 1 << 63):
        for k, c, v, first in rels:
            x, y = (k % (1 << 64), (n + c) % (1 << 64)) if first else ((n + c) % (1 << 64), k % (1 << 64))
            if ('<' if x < y else '>' if x > y else '=') not in v:
                break
        else:
            ok.append(n)
    return ok


def meaning(E, st, node, w, strict, out):
    """Adds to out the results the pointer w may have on a path: value terms or 'refused'."""
    if not w:
        out.add(node)
        return
    if w[0] != '/':
        out.add('refused')
        return
    tok, rest = w[1:], ''
    if '/' in tok:
        tok, rest = tok[:tok.index('/')], tok[tok.index('/'):]
    t = decoded(tok)
    if t is None:
        out.add('refused')
        return
    if not strict and t == '':
        meaning(E, st, node, rest, strict, out)
        return
    for k in kinds(st, node):
        if k == 'scalar':
            # (a text taken for an object has no members)
            if not fact(st, T('has', T('objv', node), S(t))):
                out.add('refused')
        elif k == 'array':
            if not t or t.strip('0123456789'):
                out.add('refused')
                continue
            if t[0] == '0' and len(t) > 1:
                raise Unknown('leading zeros')
            a = T('arr', node)
            i = I(int(t))
            if i[1] >= 1 << 64:
                out.add('refused')
                continue
            sizes = possible(st, T('size', a), i[1])
            if fact(st, maybex(node, 'Object')):
                sizes = [0]         # an array taken for an object is empty
            if any(n > i[1] for n in sizes):
                meaning(E, st, T('elem', a, i), rest, strict, out)
            if any(n <= i[1] for n in sizes):
                out.add('refused')
        else:
            o = T('objv', node)
            h = fact(st, T('has', o, S(t)))
            if h is None and E.rel_set(st, I(0), T('size', o))[1] == '=':
                h = False
            if h is None and any(mentions(x, lambda y: y[0] == 't' and y[1] == 'elem' and y[2] == o) for x in st.facts):
                raise Unknown('members are compared one by one')
            if h is not False:
                meaning(E, st, T('.', 'second', T('elem', o, T('find', S(t)))), rest, strict, out)
            if not h:
                out.add('refused')


def canon(v):
    """Member values as second(elem(...))."""
    if v[0] != 't':
        return v
    if v[1] == '.' and v[2] == 'second':
        return T('second', canon(v[3]))
    return ('t', v[1]) + tuple(canon(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in v[2:])


def steps(res, prog, tier):
    fns = {n: entry(prog, n) for n in ('resolveJsonPointerStrict', 'resolveJsonPointer')}
    lax = [f for q, fs in prog.by_q.items() if q.endswith('::resolveJsonPointer') for f in fs if f.get('body') is not None and len(f['params']) == 2]
    fns['resolveJsonPointer'] = lax[0] if lax else None
    words = ['', OTHER, '0', '1'] + ['/' + t for t in TOKENS]
    words += ['//', '///', '//1', '/%s/' % OTHER, '//%s/1' % OTHER] + [a + b for a in ('/' + OTHER, '/1') for b in (words if tier == 'thorough' else ('/', '/1', '/' + OTHER))]
    for name, f in fns.items():
        if f is None:
            res.undec('%s: not found' % name)
            continue
        strict = name.endswith('Strict')
        n = 0
        for w in dict.fromkeys(words):
            shown = w.replace(OTHER, 'x')
            try:
                c, E, outs, thrown = run(prog, f, [ptr(('sym', NODE)), ptr(('sym', T('pointer')))], w)
            except ir.AnalysisError as e:
                res.undec('%s(%r): %s' % (name, shown, e))
                continue
            for m, l, p in c.bad:
                res.violation('%s/access' % name, l or f['loc'], 'resolving %r: %s' % (shown, m[11:]), p)
            for st, v in outs + [(x[0], None) for x in thrown]:
                if not feasible(st) or any(v2 and a[:2] == ('t', 'has') and a[2][:2] == ('t', 'objv') and fact(st, isx(a[2][2], 'Array')) for a, v2 in st.facts.items()):
                    continue        # (an array taken for an object has no members)
                n += 1
                want = set()
                try:
                    meaning(E, st, NODE, w, strict, want)
                    got = result(E, st, v, w, strict) if v is not None else {'refused'}
                except Unknown as e:
                    res.undec('%s(%r): %s' % (name, shown, e))
                    continue
                if st.taint:
                    res.undec('%s(%r): %s' % (name, shown, sorted(st.taint)[0]))
                    continue
                want, got = {canon(x) if x != 'refused' else x for x in want}, {canon(x) if x != 'refused' else x for x in got}
                if want != got:
                    res.violation('%s/%s' % (name, clause(w)), f['loc'], '%s of %r yields %s instead of %s' % (name, shown, names(got), names(want)), st.path())
        res.unit('%s: %d pointers' % (name, len(words)), n)


def clause(w):
    t = w[1:].split('/')[0]
    return 'no slash' if w and w[0] != '/' else 'whole' if not w else 'several' if '/' in w[1:] else 'empty' if not t else 'index' if t.isdigit() else 'name'


def names(s):
    return ' or '.join(sorted(x if x == 'refused' else show(x) for x in s)) or 'nothing'


def result(E, st, v, w, strict):
    v = E.snap(st, v)
    if v[0] == 't' and v[1] == 'call' and 'resolveJsonPointer' in v[2]:
        # a nested call below the depth of inlining stands for what it means
        its = [x for x in v[3:] if x[0] == 'iter']
        if len(its) != 1 or its[0][1] != S(w) or not mentions(v[3], lambda x: x == NODE):
            raise Unknown('nested call')
        if B(strict) not in v[3:]:
            return {T('other')}
        out = set()
        p = len(w) if its[0][2] == 'end' else its[0][2][1]
        meaning(E, st, v[3], w[p:], strict, out)
        return out
    if not mentions(v, lambda x: x == NODE):
        raise Unknown('result %s' % show(v)[:60])
    return {v}


def pointers(res, tier):
    prog = ir.load()
    extraction(res, prog, tier)
    steps(res, prog, tier)
    res.need(sum(n for _, n in res.units), 'JSON Pointers')
