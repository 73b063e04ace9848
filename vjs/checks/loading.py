"""Loading of documents: the verdict of loadDocument against the outcome of
reading the file and of the library's parser."""
from ..engine import *
from ..models import val
from .. import ir

CONTENTS, PARSED, PATH, DOC = T('contents'), T('parsed'), T('path'), T('document')
# what each parser throws for text that is not JSON (YAML), with its base classes
THROWS = {
    'nlohmann::basic_json::parse': [('nlohmann::detail::parse_error', ['nlohmann::detail::exception', 'nlohmann::basic_json::parse_error', 'nlohmann::basic_json::exception', 'std::exception'])],
    'Poco::JSON::Parser::parse': [('Poco::JSON::JSONException', ['Poco::Exception', 'std::exception']),
                                  ('Poco::SyntaxException', ['Poco::DataException', 'Poco::RuntimeException', 'Poco::Exception', 'std::exception'])],
    'boost::property_tree::json_parser::read_json': [('boost::property_tree::json_parser::json_parser_error', [
        'boost::property_tree::file_parser_error', 'boost::property_tree::ptree_error', 'std::runtime_error', 'std::exception'])],
    'YAML::LoadFile': [('YAML::BadFile', ['YAML::Exception', 'std::runtime_error', 'std::exception']),
                       ('YAML::ParserException', ['YAML::Exception', 'std::runtime_error', 'std::exception'])],
    'Json::CharReader::parse': [('Json::RuntimeError', ['Json::Exception', 'std::exception'])],
}
READS = ('boost::property_tree::json_parser::read_json', 'YAML::LoadFile')     # given the path
OFFSET = T('offset')


def value(t, off):
    """Value of an unsigned term in the error offset, or None."""
    if t[0] == 'i':
        return t[1] % (1 << 64)
    if t == OFFSET:
        return off
    if t[0] == 't' and t[1] in ('add', 'sub', 'mul', 'max', 'min'):
        xs = [value(x, off) for x in t[2:]]
        if None in xs or len(xs) != 2:
            return None
        a, b = xs
        return {'add': a + b, 'sub': a - b, 'mul': a * b, 'max': max(a, b), 'min': min(a, b)}[t[1]] % (1 << 64)
    return None


def known(t):
    """Whether the term certainly is something other than the contents."""
    return t in (PATH, T('excerpt')) or t[0] == 's'


def wraps(t):
    """A view of the contents: their start, possibly with their length."""
    return t in (T('start', CONTENTS), ptr(('sym', CONTENTS)))


class Loading(Check):
    def __init__(self, prog):
        self.p = prog
        self.unclear = []

    def fail(self, st, what):
        st.mon['failed'] = st.mon.get('failed', ()) + (what,)

    def parsed(self, E, st, v, whole, node):
        st.mon['parses'] = st.mon.get('parses', 0) + 1
        if isinstance(whole, bool):
            good = whole
        elif mentions(whole, lambda x: x == CONTENTS) and not mentions(whole, lambda x: x == T('excerpt')):
            good = True if whole == CONTENTS or wraps(whole) else None
        else:
            good = False if known(whole) else None
        if good is None:
            st.mon['partial'] = show(whole)[:60] if not isinstance(whole, bool) else '?'
        elif not good:
            st.mon['other'] = show(whole)[:60] if not isinstance(whole, bool) else 'a part of it'

    def outcome(self, E, st, c, node, whole, results, out=None):
        """Fork: the parser accepts (result, stored) or refuses; exceptions."""
        res = []
        ok, bad = results
        s = st.copy()
        self.parsed(E, s, PARSED, whole, node)
        if out is not None and out[0] == 'ptr':
            E.storev(s, out[1], PARSED, node)
        res.append((s, ok))
        if bad is not None:
            s = st.copy()
            self.parsed(E, s, PARSED, whole, node)
            self.fail(s, 'the text is not accepted')
            res.append((s, bad))
        for t, bases in THROWS.get(c['sq'], ()):
            s = st.copy()
            self.fail(s, 'the parser throws %s' % t)
            E.EXC_BASES = dict(E.EXC_BASES, **{t: bases})
            E.throw(s, ('exc', t, UNDEF), node)
        return res

    def hook(self, E, st, c, this, args, node):
        n, sq = c['n'], c['sq']
        v = lambda i: E.snap(st, val(E, st, args[i])) if i < len(args) else UNDEF
        if sq == 'valijson::utils::loadFile':
            if v(0) != PATH:
                return None
            out = []
            for ok in (True, False):
                s = st.copy()
                if ok:
                    E.storev(s, args[1][1], CONTENTS, node)
                else:
                    self.fail(s, 'the file cannot be read')
                out.append((s, B(ok)))
            return out
        if sq == 'QFile::open':
            out = []
            for ok in (True, False):
                s = st.copy()
                if not ok:
                    self.fail(s, 'the file cannot be read')
                out.append((s, B(ok)))
            return out
        if n == 'readAll' and sq.startswith('Q'):
            return [(st, CONTENTS)]
        if sq == 'QJsonDocument::fromJson':
            return self.outcome(E, st, c, node, v(0), (T('qdoc', TRUE), T('qdoc', FALSE)))
        if sq.startswith('QJsonDocument::') and this is not None:
            d = E.snap(st, val(E, st, this))
            if d[0] == 't' and d[1] == 'qdoc':
                if n == 'isNull':
                    return [(st, B(d[2] != TRUE))]
                if n in ('isObject', 'isArray'):
                    if d[2] != TRUE:
                        return [(st, FALSE)]
                    k = st.mon.get('qkind')
                    if k is not None:
                        return [(st, B(k == n))]
                    out = []
                    for x in ('isObject', 'isArray'):
                        s = st.copy()
                        s.mon['qkind'] = x
                        out.append((s, B(x == n)))
                    return out
                if n in ('object', 'array', 'toVariant'):
                    k = st.mon.get('qkind')
                    return [(st, PARSED if d[2] == TRUE and (n == 'toVariant' or k == 'is' + n.capitalize()) else T('wrong'))]
        if this is None and n in ('fromStdString',) and v(0) == PATH:
            return [(st, PATH)]
        if sq == 'boost::json::parse':
            out = []
            err = args[1] if len(args) > 1 and args[1][0] == 'ptr' else None
            if err is None:
                return None
            for s, r in self.outcome(E, st, c, node, v(0), (PARSED, T('nothing'))):
                E.storev(s, err[1], T('error', B(r != PARSED)), node)
                out.append((s, r))
            return out
        if sq.startswith('boost::system::error_code::') and this is not None:
            e = E.snap(st, val(E, st, this))
            if e[0] == 't' and e[1] == 'error' and n in ('operator bool', 'failed', 'value'):
                return [(st, e[2])]
        if sq == 'json11::Json::parse' or sq == 'picojson::parse':
            i, e = (0, args[1] if len(args) > 1 else None) if sq[0] == 'j' else (1, None)
            out = []
            for s, r in self.outcome(E, st, c, node, v(i), (PARSED, T('nothing'))):
                msg = S('') if r == PARSED else S('message')
                if sq[0] == 'j':
                    if e is not None and e[0] == 'ptr':
                        E.storev(s, e[1], msg, node)
                    out.append((s, r))
                else:
                    if args[0][0] == 'ptr':
                        E.storev(s, args[0][1], r, node)
                    out.append((s, msg))
            return out
        if sq == 'Json::CharReader::parse' and len(args) >= 3:
            return self.outcome(E, st, c, node, self.range(E, st, args[0], args[1]), (TRUE, FALSE), args[2])
        if sq == 'nlohmann::basic_json::parse':
            quiet = len(args) > 2 and v(2) == FALSE
            if quiet:
                return self.outcome(E, st, dict(c, sq='quiet'), node, v(0), (PARSED, T('discarded')))
            return self.outcome(E, st, c, node, v(0), (PARSED, None))
        if n == 'is_discarded':
            return [(st, B(E.snap(st, val(E, st, this)) == T('discarded')))]
        if sq == 'Poco::JSON::Parser::parse':
            return self.outcome(E, st, c, node, v(0), (PARSED, None))
        if n in ('read_json', 'LoadFile'):
            k = 'YAML::LoadFile' if n == 'LoadFile' else READS[0]
            return self.outcome(E, st, dict(c, sq=k), node, v(0) == PATH, (PARSED, None), args[1] if n == 'read_json' else None)
        if sq == 'rapidjson::GenericDocument::Parse':
            out = []
            for s, r in self.outcome(E, st, c, node, v(0), (PARSED, T('broken'))):
                if this[0] == 'ptr':
                    E.storev(s, this[1], r, node)
                out.append((s, this))
            return out
        if sq.startswith('rapidjson::') and this is not None and n in ('HasParseError', 'GetErrorOffset', 'GetParseError'):
            d = E.snap(st, val(E, st, this))
            if n == 'GetErrorOffset':
                return [(st, OFFSET)]
            return [(st, B(d != PARSED) if n == 'HasParseError' else T('code'))]
        if sq in ('std::max', 'std::min') and len(args) == 2:
            return [(st, T(n, v(0), v(1)))]
        if sq == 'std::basic_string::substr' and this is not None and E.snap(st, val(E, st, this)) == CONTENTS and args:
            p = v(0)
            vals = [value(p, o) for o in list(range(0, 130)) + [1 << 20]]
            offs = list(range(0, 130)) + [1 << 20]
            if None in vals:
                self.unclear.append('position %s of an excerpt' % show(p)[:60])
            elif any(x > o for x, o in zip(vals, offs)):
                E.throw(st.copy(), ('exc', 'std::out_of_range', UNDEF), node)
            return [(st, T('excerpt'))]
        if sq in ('std::basic_string::c_str', 'std::basic_string::data') and this is not None and E.snap(st, val(E, st, this)) == CONTENTS:
            return [(st, T('start', CONTENTS))]
        if sq in ('std::basic_string::length', 'std::basic_string::size') and this is not None and E.snap(st, val(E, st, this)) == CONTENTS:
            return [(st, T('length', CONTENTS))]
        if n.startswith('operator=') and len(c.get('params', ())) == 1 and len(args) == 1 and this is not None and this[0] == 'ptr' and E.snap(st, val(E, st, args[0])) in (PARSED, T('nothing'), T('discarded'), T('wrong')):
            s = st.copy()
            E.storev(s, this[1], val(E, s, args[0]), node)
            return [(s, this)]
        if node.get('k') == 'ctor' and len(args) == 1 and not sq.startswith('std::') and v(0) in (PARSED, T('wrong'), CONTENTS, PATH):
            return [(st, v(0))]
        if node.get('k') == 'ctor' and sq.startswith('boost::') and args and v(0) in (CONTENTS,):
            return [(st, v(0))]
        if n == 'newCharReader':
            return [(st, ptr(('sym', T('reader'))))]
        return None

    def range(self, E, st, a, b):
        """The text between two pointers: the contents, a part of them, or a
        term that is neither."""
        a, b = E.snap(st, a), E.snap(st, b)
        x, y = linear(a), linear(b)
        if x is None or y is None or x.get('start') != 1 or y.get('start') != 1 or x.get('length') or y.get('length', 0) not in (0, 1):
            return T('range', a, b)
        return not x.get(1) and not y.get(1) and y.get('length') == 1


def linear(t):
    """Coefficients of the start and the length of the contents, or None."""
    if t == T('start', CONTENTS):
        return {'start': 1}
    if t == T('length', CONTENTS):
        return {'length': 1}
    if t[0] == 'i':
        return {1: t[1]}
    if t[0] == 't' and t[1] in ('+', '-', 'add', 'sub') and len(t) == 4:
        a, b = linear(t[2]), linear(t[3])
        if a is None or b is None:
            return None
        k = -1 if t[1] in ('-', 'sub') else 1
        return {x: a.get(x, 0) + k * b.get(x, 0) for x in set(a) | set(b)}
    return None


def documents_loaded(res, tier):
    prog = ir.load()
    fs = [f for f in prog.functions.values() if f['sq'] == 'valijson::utils::loadDocument' and f.get('body') is not None]
    res.need(len(fs), 'loadDocument')
    for f in sorted(fs, key=lambda f: f['loc']):
        lib = f['loc'].split('/')[-1].split('_utils')[0]
        c = Loading(prog)
        st = State()
        st.store[('sym', PATH)] = PATH
        st.store[('sym', DOC)] = T('before')
        E = Engine(prog, c)
        try:
            outs, thrown = E.run(f, st, None, [ptr(('sym', PATH)), ptr(('sym', DOC))])
        except ir.AnalysisError as e:
            res.undec('loadDocument (%s): %s' % (lib, e))
            continue
        n = 0
        for st, v in outs:
            n += 1
            failed, parses = st.mon.get('failed', ()), st.mon.get('parses', 0)
            if v not in (TRUE, FALSE):
                res.undec('loadDocument (%s): result %s' % (lib, show(v)[:60]))
                continue
            if v == TRUE and failed:
                res.violation('loadDocument (%s)/success' % lib, f['loc'], 'loadDocument for %s succeeds although %s' % (lib, failed[0]), st.path())
            elif v == TRUE and not parses:
                res.violation('loadDocument (%s)/unparsed' % lib, f['loc'], 'loadDocument for %s succeeds without parsing the file' % lib, st.path())
            elif v == TRUE and st.mon.get('other'):
                res.violation('loadDocument (%s)/text' % lib, f['loc'], 'loadDocument for %s parses %s instead of the contents of the file' % (lib, st.mon['other']), st.path())
            elif v == TRUE and st.mon.get('partial'):
                res.undec('loadDocument (%s): the parsed text %s' % (lib, st.mon['partial']))
            elif v == TRUE and E.snap(st, st.store[('sym', DOC)]) != PARSED:
                d = E.snap(st, st.store[('sym', DOC)])
                if d == T('before') or d == T('wrong') or d == T('nothing'):
                    res.violation('loadDocument (%s)/document' % lib, f['loc'], 'loadDocument for %s succeeds without handing out the parsed document' % lib, st.path())
                else:
                    res.undec('loadDocument (%s): document %s' % (lib, show(d)[:60]))
            elif v == FALSE and not failed:
                res.violation('loadDocument (%s)/refused' % lib, f['loc'], 'loadDocument for %s fails although the text was parsed' % lib, st.path())
        for x in thrown:
            n += 1
            st, e = x[0], x[1]
            name = e[1] if e[0] == 'exc' else '?'
            if name == '?' and not st.mon.get('failed'):
                continue
            res.violation('loadDocument (%s)/throws' % lib, f['loc'], 'loadDocument for %s lets %s escape%s' % (
                lib, name, ' (%s)' % st.mon['failed'][0] if st.mon.get('failed') else ''), st.path())
        for u in c.unclear:
            res.undec('loadDocument (%s): %s' % (lib, u))
        res.unit('loadDocument (%s)' % lib, n)


class File(Check):
    """loadFile: the position of the stream is followed."""

    def __init__(self, prog):
        self.p = prog

    def hook(self, E, st, c, this, args, node):
        n, sq = c['n'], c['sq']
        cls = c.get('cls', '')
        v = lambda i: E.snap(st, val(E, st, args[i])) if i < len(args) else UNDEF
        if cls == 'basic_ifstream' and node.get('k') == 'ctor':
            s = st.copy()
            s.mon['pos'] = 'start'
            return [(s, T('file'))]
        if 'stream' in cls and 'iterator' not in cls and 'buf' not in cls:
            if n in ('is_open', 'good', 'operator!', 'fail', 'operator bool'):
                o = st.mon.get('open')
                pos = n not in ('operator!', 'fail')
                if o is not None:
                    return [(st, B(o == pos))]
                out = []
                for o in (True, False):
                    s = st.copy()
                    s.mon['open'] = o
                    out.append((s, B(o == pos)))
                return out
            if n == 'seekg':
                s = st.copy()
                if len(args) == 2:
                    d = v(1)
                    s.mon['pos'] = 'start' if v(0) == I(0) and d in (I(0), T('beg')) else 'end' if v(0) == I(0) and d in (I(2), T('end')) else 'elsewhere'
                else:
                    s.mon['pos'] = 'start' if v(0) == I(0) else 'elsewhere'
                return [(s, this if this is not None else UNDEF)]
            if n == 'tellg':
                return [(st, T('tell') if st.mon.get('pos') == 'end' else T('tell', S(st.mon.get('pos', '?'))))]
            if n in ('close', 'clear', 'exceptions', 'open'):
                return [(st, UNDEF)]
        if cls == 'istreambuf_iterator' and node.get('k') == 'ctor' and not (node.get('copy') or node.get('move')):
            return [(st, T('from', S(st.mon.get('pos', '?'))) if args else T('eof'))]
        if n == 'operator long' and this is not None:
            return [(st, E.snap(st, val(E, st, this)))]
        if sq == 'std::numeric_limits::max' and 'unsigned int' in c.get('q', '') + str(c.get('clst', '')):
            return [(st, I((1 << 32) - 1))]
        if sq in ('std::basic_string::assign', 'std::basic_string::append') and len(args) == 2 and this is not None and v(0)[:2] == ('t', 'from') and v(1) == T('eof'):
            s = st.copy()
            old = E.snap(s, val(E, s, this))
            new = v(0) if n == 'assign' or old == S('') else T('mixed', old, v(0))
            E.storev(s, this[1], new, node)
            return [(s, this)]
        if sq == 'std::basic_string::insert' and len(args) == 3 and this is not None and v(1)[:2] == ('t', 'from') and v(2) == T('eof'):
            s = st.copy()
            old = E.snap(s, val(E, s, this))
            E.storev(s, this[1], v(1) if old == S('') else T('mixed', old, v(1)), node)
            return [(s, UNDEF)]
        if sq == 'std::basic_string::basic_string' and len(args) >= 2 and v(0)[:2] == ('t', 'from') and v(1) == T('eof'):
            return [(st, v(0))]
        return None


def reading(res, tier):
    prog = ir.load()
    fs = [f for f in prog.functions.values() if f['sq'] == 'valijson::utils::loadFile' and f.get('body') is not None]
    for f in fs[:1]:
        c = File(prog)
        st = State()
        st.store[('sym', PATH)] = PATH
        st.store[('sym', DOC)] = T('before')
        E = Engine(prog, c)
        outs, thrown = E.run(f, st, None, [ptr(('sym', PATH)), ptr(('sym', DOC))])
        for st, v in outs:
            d = E.snap(st, st.store[('sym', DOC)])
            opened = st.mon.get('open')
            if v not in (TRUE, FALSE):
                res.undec('loadFile: result %s' % show(v)[:60])
            elif v == TRUE and opened is False:
                res.violation('loadFile/unopened', f['loc'], 'loadFile succeeds although the file could not be opened', st.path())
            elif v == TRUE and d[:2] == ('t', 'from') and d[2] != S('start'):
                res.violation('loadFile/start', f['loc'], 'loadFile reads the file from its %s' % d[2][1], st.path())
            elif v == TRUE and (d == T('before') or d == S('') or d[:2] == ('t', 'mixed')):
                res.violation('loadFile/contents', f['loc'], 'loadFile succeeds, but the destination %s' % (
                    'keeps its former contents' if d != S('') else 'is empty'), st.path())
            elif v == TRUE and d[:2] != ('t', 'from'):
                res.undec('loadFile: destination %s' % show(d)[:60])
            elif v == TRUE and opened is None:
                res.violation('loadFile/unchecked', f['loc'], 'loadFile does not ask whether the file could be opened', st.path())
            elif v == FALSE and opened is True:
                why = [a for a in st.facts if mentions(a, lambda x: x[:2] == ('t', 'tell'))]
                if not why:
                    res.violation('loadFile/refused', f['loc'], 'loadFile fails for a file that could be opened', st.path())
                else:
                    # sizes up to 2^31 and more are read
                    for size in (0, 1, 1000, (1 << 31) - 1):
                        if holds(st, size):
                            res.violation('loadFile/size', f['loc'], 'loadFile refuses a file of %d bytes' % size, st.path())
                            break
        res.unit('loadFile', len(outs))
        for x in thrown:
            res.undec('loadFile: exception %s' % show(x[1])[:60])


def holds(st, size):
    """Whether the facts about the length of the file allow this size."""
    for a, v in st.facts.items():
        if a[0] != 'rel' or not mentions(a, lambda x: x[:2] == ('t', 'tell')):
            continue
        l, r = a[1], a[2]
        x, y = (l[1], size) if l[0] == 'i' else (size, r[1]) if r[0] == 'i' else (None, None)
        if x is None or T('tell') not in (l, r):
            return False
        if ('<' if x < y else '>' if x > y else '=') not in v:
            return False
    return True


def loading(res, tier):
    documents_loaded(res, tier)
    reading(res, tier)
