"""Operations on texts whose characters are known: std::string, iterators over
it, character pointers and the number parsers.  Texts are S(...) of characters
0..255; a position is an iterator over the text."""
from .engine import *
from .models import val, strv

NPOS = (1 << 64) - 1
DIG = '0123456789abcdefghijklmnopqrstuvwxyz'


def code(ch):
    o = ord(ch)
    return o if o < 128 else o - 256


def char(v):
    return chr(v & 255)


def text(E, st, v):
    """The characters of a text argument, or None."""
    x = val(E, st, v) if v is not None else None
    if x is None:
        return None
    if x[0] == 'ptr':
        x = E.snap(st, x)
    if x[0] == 's':
        return x[1]
    if x[0] == 'iter' and x[1][0] == 's' and isinstance(pos(x), int):
        return x[1][1][pos(x):].split('\0')[0]
    if x[0] == 'obj' and x[1] == 'view':
        return getf(x, 't')[1]
    return None


def pos(it):
    return len(it[1][1]) if it[2] == 'end' else it[2][1] if it[2][0] == 'i' else None


def num(E, st, v):
    x = val(E, st, v)
    return x[1] % (1 << 64) if x[0] == 'i' else None


def iterator(E, st, v):
    x = val(E, st, v)
    return x if x[0] == 'iter' and x[1][0] == 's' and pos(x) is not None else None


def getf(o, f):
    return dict(o[3]).get(f)


class Fail(Exception):
    pass


def method(E, st, n, t, args, c):
    """(result, new text or None) of a method of std::string; Fail(name) throws."""
    a = [text(E, st, x) for x in args]
    k = [num(E, st, x) for x in args]
    ch = [char(val(E, st, x)[1]) if val(E, st, x)[0] == 'i' else None for x in args]
    L = len(t)
    if n in ('size', 'length'):
        return I(L), None
    if n == 'empty':
        return B(L == 0), None
    if n in ('find', 'rfind', 'find_first_of', 'find_first_not_of', 'find_last_of', 'find_last_not_of'):
        p = a[0] if a[0] is not None else ch[0]
        if p is None:
            return None
        if len(args) > 2 and k[2] is not None:
            p = p[:k[2]]
        one = a[0] is None
        frm = k[1] if len(args) > 1 else NPOS if n in ('rfind', 'find_last_of', 'find_last_not_of') else 0
        if frm is None:
            return None
        if n == 'find':
            r = t.find(p, frm) if frm <= L else -1
        elif n == 'rfind':
            r = t.rfind(p, 0, min(frm, L) + len(p))
        else:
            neg, rev = 'not' in n, 'last' in n
            rng = range(min(frm, L - 1), -1, -1) if rev else range(min(frm, L), L)
            r = next((i for i in rng if (t[i] in p) != neg), -1)
        return I(NPOS if r < 0 else r), None
    if n == 'substr':
        b = k[0] if args else 0
        if b is None:
            return None
        if b > L:
            raise Fail('std::out_of_range')
        return S(t[b:] if len(args) < 2 else t[b:b + min(k[1], L)]), None
    if n in ('compare', 'starts_with', 'ends_with'):
        if len(args) == 1 and n != 'compare':
            p = a[0] if a[0] is not None else ch[0]
            return B(t.startswith(p) if n == 'starts_with' else t.endswith(p)), None
        s, p = t, a[-1]
        if len(args) == 3 and a[2] is not None:
            if k[0] > L:
                raise Fail('std::out_of_range')
            s = t[k[0]:k[0] + min(k[1], L)]
        elif len(args) != 1:
            return None
        return I((s > p) - (s < p)), None
    if n in ('begin', 'cbegin'):
        return ('iter', S(t), I(0)), None
    if n in ('end', 'cend'):
        return ('iter', S(t), I(L)), None
    if n in ('c_str', 'data'):
        return ('iter', S(t), I(0)), None
    if n == 'operator basic_string_view':
        return S(t), None
    if n in ('operator[]', 'at', 'front', 'back'):
        i = {'front': 0, 'back': L - 1}.get(n, k[0] if k else 0)
        if i is None:
            return None
        if i >= L and n == 'at':
            raise Fail('std::out_of_range')
        if i > L or i < 0 or n in ('front', 'back') and not L:
            raise Fail('undefined: character %d of a text of %d' % (i, L))
        return ptr(('sym', I(code(t[i]) if i < L else 0))), None
    me = 'this'
    if n == 'clear':
        return UNDEF, ''
    if n == 'push_back':
        return UNDEF, t + ch[0]
    if n == 'pop_back':
        return UNDEF, t[:-1]
    if n in ('append', 'operator+='):
        if len(args) == 1:
            p = a[0] if a[0] is not None else ch[0]
        elif len(args) == 2:
            i, j = iterator(E, st, args[0]), iterator(E, st, args[1])
            if i and j:
                p = i[1][1][pos(i):pos(j)]
            else:
                p = a[0][:k[1]] if a[0] is not None else ch[1] * k[0]
        else:
            p = a[0][k[1]:][:k[2]]
        return me, t + p
    if n in ('assign', 'operator='):
        if len(args) == 1:
            p = a[0] if a[0] is not None else ch[0]
        else:
            p = a[0][:k[1]] if a[0] is not None else ch[1] * k[0]
        return me, p
    if n == 'resize':
        return UNDEF, (t + (ch[1] if len(args) > 1 else '\0') * k[0])[:k[0]]
    if n in ('erase', 'replace', 'insert'):
        i = iterator(E, st, args[0]) if args else None
        j = iterator(E, st, args[1]) if len(args) > 1 else None
        if i:
            b = pos(i)
            e = pos(j) if j else b + 1 if n == 'erase' else b
            rest, base = args[2 if j else 1:], 2 if j else 1
        else:
            b = k[0] if args else 0
            if b is None:
                return None
            if b > L:
                raise Fail('std::out_of_range')
            e = b if n == 'insert' else min(L, b + (k[1] if len(args) > 1 else NPOS))
            base = 1 if n == 'insert' else 2
        ra, rk, rc = a[base:], k[base:], ch[base:]
        if n == 'erase':
            new = ''
        elif len(ra) == 1:
            new = ra[0] if ra[0] is not None else rc[0]
        elif len(ra) == 2:
            new = ra[0][:rk[1]] if ra[0] is not None else rc[1] * rk[0]
        elif len(ra) == 3:
            new = ra[0][rk[1]:][:rk[2]]
        else:
            return None
        if new is None:
            return None
        r = t[:b] + new + t[e:]
        return (('iter', S(r), I(b)) if i and n != 'replace' else me), r
    if n in ('reserve', 'shrink_to_fit'):
        return UNDEF, None
    if n == 'capacity':
        return I(L), None
    return None


def integer(t, base, signed, bits=64):
    """strtol-like: (value, length used, overflow); length 0: no conversion."""
    i = 0
    while i < len(t) and t[i] in ' \t\n\v\f\r':
        i += 1
    neg = False
    if i < len(t) and t[i] in '+-':
        neg = t[i] == '-'
        i += 1
    if base in (0, 16) and t[i:i + 2].lower() == '0x' and t[i + 2:i + 3].lower() in list(DIG[:16]):
        i, base = i + 2, 16
    elif base == 0:
        base = 8 if t[i:i + 1] == '0' else 10
    b = i
    while i < len(t) and t[i].lower() in DIG[:base] and t[i] < '\x80':
        i += 1
    if i == b:
        return 0, 0, False
    v = int(t[b:i], base)
    if signed:
        lo, hi = -(1 << bits - 1), (1 << bits - 1) - 1
        v = -v if neg else v
        o = not lo <= v <= hi
        v = max(lo, min(hi, v))
    else:
        hi = (1 << bits) - 1
        o = v > hi
        v = hi if o else (-v) % (1 << bits) if neg else v
    return v, i, o


CTYPE = {'isdigit': lambda c: c.isdigit(), 'isxdigit': lambda c: c in '0123456789abcdefABCDEF', 'isalpha': lambda c: c.isalpha(), 'isalnum': lambda c: c.isalnum(),
         'isspace': lambda c: c in ' \t\n\v\f\r', 'isupper': lambda c: c.isupper(), 'islower': lambda c: c.islower()}
STO = {'std::stoi': (True, 32), 'std::stol': (True, 64), 'std::stoll': (True, 64), 'std::stoul': (False, 64), 'std::stoull': (False, 64)}
STRTO = {'strtoul': (False, 64), 'strtoull': (False, 64), 'strtol': (True, 64), 'strtoll': (True, 64), 'atoi': (True, 32), 'atol': (True, 64)}


class Words:
    """Mixin for checks: hook() first, then the next class."""

    def words(self, E, st, c, this, args, node):
        n, sq = c['n'], c['sq']
        try:
            r = self.words_(E, st, c, n, sq, this, args, node)
        except Fail as e:
            E.throw(st.copy(), ('exc', str(e), UNDEF), node)
            if str(e).startswith('undefined'):
                self.bad_access(str(e), node, st)
            return []
        except (TypeError, IndexError):
            return None
        return r

    def bad_access(self, msg, node, st):
        pass

    def words_(self, E, st, c, n, sq, this, args, node):
        if sq == 'std::basic_string::basic_string' and args and not (node.get('copy') or node.get('move')):
            i, j = (iterator(E, st, args[0]), iterator(E, st, args[1])) if len(args) > 1 else (None, None)
            if i and j and i[1] == j[1]:
                return [(st, S(i[1][1][pos(i):pos(j)]))]
            t = text(E, st, args[0])
            real = [x for x in args[1:] if val(E, st, x)[0] == 'i']
            if t is not None:
                if len(real) == 1:
                    return [(st, S(t[:num(E, st, real[0])] if 'char *' in c['params'][0] else t[num(E, st, real[0]):]))]
                if len(real) == 2:
                    return [(st, S(t[num(E, st, real[0]):][:num(E, st, real[1])]))]
                return [(st, S(t))]
            if val(E, st, args[0])[0] == 'i' and len(args) > 1 and val(E, st, args[1])[0] == 'i':
                return [(st, S(char(val(E, st, args[1])[1]) * num(E, st, args[0])))]
            return None
        if this is not None and sq.startswith('std::basic_string::'):
            t = text(E, st, this)
            if t is not None:
                r = method(E, st, n, t, args, c)
                if r is None:
                    return None
                v, new = r
                if new is not None:
                    st = st.copy()
                    if this[0] == 'ptr':
                        E.storev(st, this[1], S(new), node)
                return [(st, this if v == 'this' else v)]
        if sq == 'std::operator+' and len(args) == 2:
            ab = [text(E, st, x) if text(E, st, x) is not None else char(val(E, st, x)[1]) if val(E, st, x)[0] == 'i' else None for x in args]
            if None not in ab:
                return [(st, S(ab[0] + ab[1]))]
        if sq in ('std::operator==', 'std::operator!=', 'std::operator<', 'std::operator>') and len(args) == 2:
            ab = [text(E, st, x) for x in args]
            if None not in ab and 'basic_string' in str(c.get('params')):
                x, y = ab
                return [(st, B({'==': x == y, '!=': x != y, '<': x < y, '>': x > y}[sq[13:]]))]
        its = [iterator(E, st, x) for x in ([this] if this is not None else []) + list(args)]
        if n.startswith('operator') and its and its[0]:
            op = n[8:]
            a = its[0]
            tgt = this if this is not None else args[0]
            rest = list(args) if this is not None else list(args[1:])
            if op in ('==', '!=', '<', '>', '<=', '>=', '-') and its[-1] and len(its) == 2 and its[1][1] == a[1]:
                x, y = pos(a), pos(its[1])
                return [(st, I(x - y) if op == '-' else B({'==': x == y, '!=': x != y, '<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op]))]
            if op in ('++', '--', '+=', '-=', '+', '-'):
                d = 1 if op in ('++', '--') else val(E, st, rest[0])[1]
                new = ('iter', a[1], I(pos(a) + (d if '+' in op else -d)))
                if not 0 <= pos(new) <= len(a[1][1]):
                    raise Fail('undefined: an iterator leaves the text')
                if op in ('+', '-'):
                    return [(st, new)]
                st = st.copy()
                E.storev(st, tgt[1], new, node)
                return [(st, a if op in ('++', '--') and rest else tgt)]
            if op == '*' or op == '[]':
                p = pos(a) + (val(E, st, rest[0])[1] if op == '[]' else 0)
                if not 0 <= p < len(a[1][1]):
                    raise Fail('undefined: the end of a text is read')
                return [(st, ptr(('sym', I(code(a[1][1][p])))))]
        if sq in ('std::find', 'std::count', 'std::distance', 'std::next', 'std::prev', 'std::advance') and its and its[0]:
            a = its[0]
            t = a[1][1]
            if sq in ('std::next', 'std::prev', 'std::advance'):
                d = val(E, st, args[1])[1] if len(args) > 1 else 1
                new = ('iter', a[1], I(pos(a) + (-d if sq == 'std::prev' else d)))
                if not 0 <= pos(new) <= len(t):
                    raise Fail('undefined: an iterator leaves the text')
                if sq != 'std::advance':
                    return [(st, new)]
                st = st.copy()
                E.storev(st, args[0][1], new, node)
                return [(st, UNDEF)]
            b, e = pos(a), pos(its[1])
            if sq == 'std::distance':
                return [(st, I(e - b))]
            if b > e:
                raise Fail('undefined: an empty range is searched from behind its end')
            x = char(val(E, st, args[2])[1])
            if sq == 'std::count':
                return [(st, I(t[b:e].count(x)))]
            r = t.find(x, b, e)
            return [(st, ('iter', a[1], I(e if r < 0 else r)))]
        if sq in ('std::search', 'std::find_first_of') and len(args) == 4 and its[0]:
            a = its[0]
            p = its[2][1][1][pos(its[2]):pos(its[3])]
            t, b, e = a[1][1], pos(a), pos(its[1])
            r = t.find(p, b, e) if sq == 'std::search' else next((i for i in range(b, e) if t[i] in p), -1)
            return [(st, ('iter', a[1], I(e if r < 0 else r)))]
        if n == 'strlen' and text(E, st, args[0]) is not None:
            return [(st, I(len(text(E, st, args[0]))))]
        short = sq.split('::')[-1]
        if short in CTYPE and len(args) == 1 and val(E, st, args[0])[0] == 'i':
            v = val(E, st, args[0])[1]
            if not -1 <= v <= 255:
                raise Fail('undefined: %s of a negative character' % short)
            return [(st, I(int(v >= 0 and v < 128 and CTYPE[short](chr(v)))))]
        if short in ('tolower', 'toupper') and val(E, st, args[0])[0] == 'i':
            v = val(E, st, args[0])[1]
            return [(st, I(ord(getattr(chr(v), short[2:])()) if 0 <= v < 128 else v))]
        if sq in STO and text(E, st, args[0]) is not None:
            t = text(E, st, args[0])
            base = val(E, st, args[2])[1] if len(args) > 2 and val(E, st, args[2])[0] == 'i' else 10
            v, used, o = integer(t, base, *STO[sq])
            if not used or o:
                raise Fail('std::out_of_range' if used else 'std::invalid_argument')
            if len(args) > 1 and args[1][0] == 'ptr':
                st = st.copy()
                E.storev(st, args[1][1], I(used), node)
            return [(st, I(v))]
        if short in STRTO and text(E, st, args[0]) is not None:
            t = text(E, st, args[0])
            base = val(E, st, args[2])[1] if len(args) > 2 else 10
            v, used, o = integer(t, base, *STRTO[short])
            if len(args) > 1 and args[1][0] == 'ptr':
                st = st.copy()
                x = val(E, st, args[0])
                b = pos(x) if x[0] == 'iter' else 0
                E.storev(st, args[1][1], ('iter', x[1] if x[0] == 'iter' else x, I(b + used)), node)
            return [(st, I(v))]
        if short == '__errno_location':
            return [(st, ptr(('sym', T('errno'))))]
        return None
