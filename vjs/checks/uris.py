"""References between documents: resolution of a reference against its base, by RFC 3986."""
import re
from ..engine import *
from ..visitor import *
from ..words import Words, text
from .. import ir
from .lookups import entry

OTHER = 'x'                         # stands for any character the code does not mention

BASE_, REF = T('base'), T('reference')
# 'h' an authority, OTHER any character of a segment that is not mentioned by the code
BASES = ['http://h', 'http://h/', 'http://h/a', 'http://h/a/b', 'http://h/a/b/', 'http://h/a?q', 'http://h/a/b?q#f', 'http://h/a#f', 'http://h?q', 'http://h#f', 'http://h/a#f/g', 'http://h/a?q/r',
         'a', 'a/b', 'a/b/', '/a', '/a/b', '../a', 'a?q', 'a/b#f/g', '', 'urn:ab:c']
UNITS = [OTHER, '/', '.', '..', '?', '#', ':', '://', 'y/']
URNS = [('urn:ab:c', True), ('URN:ab:c', True), ('urn:a-1:c:d', True), ('urn:isbn:978-3', True), ('urn:ab:c#f', True), ('urn:ab:c?=q', True), ('urn:%s:c' % ('a' * 32), True),
        ('', False), ('urn:', False), ('urn:ab', False), ('urn:ab:', False), ('urn:a:c', False), ('urn:-a:c', False), ('urn:urn:c', False), ('xurn:ab:c', False), ('ab:c', False), ('ab', False),
        ('#urn:ab:c', False), ('a/urn:ab:c', False), ('urn:%s:c' % ('a' * 33), False), ('http://urn:ab:c', False)]
MARK = '/?#'


class Uri(Words, VCheck):
    def __init__(self, prog):
        VCheck.__init__(self, prog)
        self.reset()
        self.bad = []

    def hook(self, E, st, c, this, args, node):
        if c['sq'] in ('std::regex_match', 'std::regex_search') and len(args) >= 2:
            t, x = text(E, st, args[0]), E.snap(st, E.content(st, args[1]) if args[1][0] == 'ptr' else args[1])
            if t is not None and x[:3] == ('t', 'new', 'std::basic_regex') and x[3][0] == 's':
                # (a subset on which the two dialects agree)
                m = getattr(re, 'fullmatch' if c['sq'].endswith('match') else 'search')(x[3][1], t)
                return [(st, B(m is not None))]
        r = self.sequence(E, st, c, this, args, node)
        if r is None:
            r = self.words(E, st, c, this, args, node)
        if r is not None:
            return r
        return VCheck.hook(self, E, st, c, this, args, node)

    def sequence(self, E, st, c, this, args, node):
        """Vectors and deques of known texts."""
        sq, n = c['sq'], c['n']
        if sq in ('std::vector::vector', 'std::deque::deque', 'std::list::list') and not args:
            return [(st, ('list', ()))]
        if this is None or not sq.startswith(('std::vector::', 'std::deque::', 'std::list::')) or this[0] != 'ptr':
            if this is not None and this[0] == 'ptr' and this[1][0][0] == 'sym' and not c.get('const') and n in ('operator+=', 'append', 'operator=', 'assign', 'clear', 'push_back', 'pop_back', 'erase', 'insert'):
                st.taint = st.taint | {'an element is changed in place'}
            return None
        v = E.content(st, this)
        if v[0] != 'list':
            return None
        xs = v[1]
        new = None
        if n in ('push_back', 'emplace_back', 'push_front', 'emplace_front'):
            x = E.snap(st, E.content(st, args[0]) if args and args[0][0] == 'ptr' else args[0] if args else S(''))
            new = (x,) + xs if 'front' in n else xs + (x,)
            out = ptr(('sym', x))
        elif n in ('pop_back', 'pop_front', 'back', 'front'):
            if not xs:
                self.bad_access('undefined: %s of an empty container' % n, node, st)
                return []
            if n in ('back', 'front'):
                return [(st, ptr(('sym', xs[-1 if n == 'back' else 0])))]
            new, out = xs[:-1] if n == 'pop_back' else xs[1:], UNDEF
        elif n == 'clear':
            new, out = (), UNDEF
        elif n in ('operator[]', 'at') and args:
            i = E.content(st, args[0]) if args[0][0] == 'ptr' else args[0]
            if i[0] != 'i':
                return None
            if not 0 <= i[1] < len(xs):
                self.bad_access('undefined: element %d of %d' % (i[1], len(xs)), node, st)
                return []
            return [(st, ptr(('sym', xs[i[1]])))]
        elif n in ('size', 'empty'):
            return [(st, I(len(xs)) if n == 'size' else B(not xs))]
        elif n == 'reserve':
            return [(st, UNDEF)]
        else:
            return None
        st = st.copy()
        E.storev(st, this[1], ('list', new), node)
        return [(st, out)]

    def bad_access(self, msg, node, st):
        self.bad.append((msg, node.get('l'), st.path()))


def run(prog, f, words):
    c = Uri(prog)
    st = State()
    args = []
    for t, w in zip((BASE_, REF), words):
        st.store[('sym', t)] = S(w)
        args.append(ptr(('sym', t)))
    E = Engine(prog, c)
    E.unroll = True
    outs, thrown = E.run(f, st, None, args)
    return c, E, outs, thrown


def absolute(u):
    i = u.find('://')
    return i >= 0 and not set(u[:i]) & set(MARK)


def split(u):
    """(scheme and authority, path, query, fragment); the last two None if absent."""
    u, m, f = u.partition('#')
    f = f if m else None
    u, m, q = u.partition('?')
    q = q if m else None
    head = ''
    if absolute(u):
        i = u.index('://') + 3
        j = u.find('/', i)
        j = len(u) if j < 0 else j
        head, u = u[:j], u[j:]
    return head, u, q, f


def remove_dots(p):
    rooted = p.startswith('/')
    segs = p.split('/')[1:] if rooted else p.split('/')
    out = []
    for n, s in enumerate(segs):
        if s in ('.', '..'):
            if s == '..':
                if out and out[-1] != '..':
                    out.pop()
                elif not rooted:
                    out.append('..')
            if n == len(segs) - 1:
                out.append('')
        else:
            out.append(s)
    return ('/' if rooted else '') + '/'.join(out)


def resolved(base, ref):
    """Section 5.2 of RFC 3986; leading '..' segments of a relative base are kept."""
    if not ref:
        return base
    if absolute(ref) or ref.startswith('urn:'):
        return ref
    head, bp, bq, _ = split(base)
    _, rp, rq, rf = split(ref)
    if not rp:
        p, q = bp, bq if rq is None else rq
        if head and not p:
            p = '/'
    else:
        q = rq
        if rp.startswith('/'):
            p = rp
        elif head and not bp:
            p = '/' + rp
        else:
            p = bp[:bp.rfind('/') + 1] + rp
        p = remove_dots(p)
    return head + p + ('' if q is None else '?' + q) + ('' if rf is None else '#' + rf)


def admitted(base, ref):
    """Network-path references and empty segments are not supported by valijson."""
    if absolute(ref):
        return True
    p = split(ref)[1] if '://' not in ref else ref.split('#')[0].split('?')[0]
    if '//' in p or ref.startswith('//'):
        return False
    return not (base.startswith('urn:') and p)


def uris(res, tier):
    prog = ir.load()
    words = {''}
    for _ in range(4 if tier == 'thorough' else 3):
        words |= {w + u for w in words for u in UNITS}
    words |= {'urn:ab:c', 'a/' + OTHER + '/../..', '../../..', 'a/./b/../c', '/../..', OTHER + '?://', OTHER + '#://', '/://', OTHER + '/://'}
    words = sorted(words, key=lambda w: (len(w), w))
    f = entry(prog, 'isUriAbsolute')
    n = 0
    if f is None:
        res.undec('isUriAbsolute: not found')
    for w in words if f else ():
        n += judge(res, prog, f, (w,), B(absolute(w)), lambda w: 'isUriAbsolute(%r)' % w[0], 'absolute')
    res.unit('isUriAbsolute: words over %d units' % len(UNITS), n)
    f = entry(prog, 'isUrn')
    n = 0
    if f is None:
        res.undec('isUrn: not found')
    for w, y in URNS if f else ():
        n += judge(res, prog, f, (w,), B(y), lambda w: 'isUrn(%r)' % w[0], 'urn')
    res.unit('isUrn: texts with and without the parts of a URN', n)
    f = entry(prog, 'resolveRelativeUri')
    if f is None:
        res.undec('resolveRelativeUri: not found')
        return
    for b in BASES:
        n = 0
        for w in words:
            if not admitted(b, w):
                continue
            want = resolved(b, w)
            alt = '/' + want if not split(want)[0] and not split(want)[1] and split(w)[1] else None      # a relative path that vanishes
            n += judge(res, prog, f, (b, w), S(want), lambda w: 'resolving %r against %r' % (w[1], w[0]), clause(b, w), alt and S(alt))
        res.unit('resolveRelativeUri: base %r' % b, n)


def clause(b, w):
    _, p, q, f = split(w)
    kind = 'absolute' if absolute(w) or w.startswith('urn:') else 'empty' if not w else 'dots' if any(s in ('.', '..') for s in p.split('/')) else 'rooted' if p.startswith('/') else 'path' if p else 'query' if q is not None else 'fragment'
    return kind + ('' if absolute(b) else '/relative base')


def judge(res, prog, f, words, want, what, cl, alt=None):
    shown = what([w for w in words])
    try:
        c, E, outs, thrown = run(prog, f, words)
    except (ir.AnalysisError, TooBig) as e:
        res.undec('%s: %s' % (shown, e))
        return 0
    for m, l, p in c.bad:
        res.violation('%s/access' % f['q'].split('::')[-1], l or f['loc'], '%s: %s' % (shown, m[11:]), p)
    for st, v in outs:
        v = E.snap(st, E.content(st, v) if v[0] == 'ptr' else v)
        if st.taint or v[0] not in 'sb':
            res.undec('%s: %s' % (shown, sorted(st.taint)[0] if st.taint else show(v)[:60]))
        elif v != want and v != alt:
            res.violation('%s/%s' % (f['q'].split('::')[-1], cl), f['loc'], '%s yields %s instead of %s' % (shown, text_(v), text_(want)), st.path())
    if not outs and not c.bad:
        res.violation('%s/throws' % f['q'].split('::')[-1], f['loc'], '%s fails' % shown, thrown[0][0].path() if thrown else ())
    return 1


def text_(v):
    return repr(v[1]) if v[0] == 's' else show(v)
