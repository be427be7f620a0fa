"""`re` as the code under test sees it: patterns are parsed by Python's own regex
parser, and matched on symbolic strings by a backtracking matcher whose character
tests fork."""
import re as _re
import re._parser as _p
import re._constants as _c
import types
from .engine import Unsupported
from .strings import SymStr, items, mkstr, inset, pred, isstr

MAXREP = _c.MAXREPEAT


def _cat(cat):
    neg = False
    name = str(cat)
    if 'NOT_' in name:
        neg = True
    if 'DIGIT' in name:
        f = lambda x: chr(x).isdecimal()
    elif 'SPACE' in name:
        f = lambda x: chr(x).isspace()
    elif 'WORD' in name:
        f = lambda x: chr(x).isalnum() or x == 95
    else:
        raise Unsupported('regex category %s' % name)
    return (lambda x: not f(x)) if neg else f


def charset(op, av, flags):
    """Predicate on code points of a single-character node, or None."""
    ic = flags & _re.IGNORECASE
    if op is _c.LITERAL:
        if ic:
            return lambda x: chr(x).lower() == chr(av).lower()
        return lambda x: x == av
    if op is _c.NOT_LITERAL:
        return lambda x: x != av if not ic else chr(x).lower() != chr(av).lower()
    if op is _c.ANY:
        return (lambda x: True) if flags & _re.DOTALL else (lambda x: x != 10)
    if op is _c.IN:
        neg = False
        ps = []
        for o, a in av:
            if o is _c.NEGATE:
                neg = True
            elif o is _c.LITERAL:
                ps.append(lambda x, a=a: x == a)
            elif o is _c.RANGE:
                ps.append(lambda x, a=a: a[0] <= x <= a[1])
            elif o is _c.CATEGORY:
                ps.append(_cat(a))
            else:
                raise Unsupported('regex set item %s' % o)
        if ic:
            base = lambda x: any(q(y) for q in ps for y in {x, ord(chr(x).lower()[0]), ord(chr(x).upper()[0])})
        else:
            base = lambda x: any(q(x) for q in ps)
        return (lambda x: not base(x)) if neg else base
    return None


class Matcher:
    def __init__(self, cs, flags):
        self.cs, self.n, self.flags = cs, len(cs), flags

    def at(self, i, fn):
        return i < self.n and pred(self.cs[i], fn)

    def seq(self, nodes, k, i, g, cont):
        """Match nodes[k:] at i; cont(i, g) -> result or None."""
        if k == len(nodes):
            return cont(i, g)
        op, av = nodes[k]

        def rest(j, g2):
            return self.seq(nodes, k + 1, j, g2, cont)
        cs = charset(op, av, self.flags)
        if cs is not None:
            return rest(i + 1, g) if self.at(i, cs) else None
        if op is _c.AT:
            return rest(i, g) if self.anchor(av, i) else None
        if op is _c.SUBPATTERN:
            gid, addf, delf, sub = av
            if addf or delf:
                raise Unsupported('inline regex flags')
            if gid is None:
                return self.seq(list(sub), 0, i, g, rest)

            def close(j, g2):
                g3 = dict(g2)
                g3[gid] = (i, j)
                return rest(j, g3)
            return self.seq(list(sub), 0, i, g, close)
        if op is _c.BRANCH:
            for alt in av[1]:
                r = self.seq(list(alt), 0, i, g, rest)
                if r is not None:
                    return r
            return None
        if op in (_c.MAX_REPEAT, _c.MIN_REPEAT, getattr(_c, 'POSSESSIVE_REPEAT', None)):
            lo, hi, sub = av
            if op is getattr(_c, 'POSSESSIVE_REPEAT', None):
                raise Unsupported('possessive repeat')
            return self.rep(list(sub), lo, hi, i, g, rest, op is _c.MAX_REPEAT)
        if op in (_c.ASSERT, _c.ASSERT_NOT):
            d, sub = av
            if d != 1:
                raise Unsupported('look-behind')
            r = self.seq(list(sub), 0, i, g, lambda j, g2: (j, g2))
            if op is _c.ASSERT:
                return rest(i, r[1]) if r is not None else None
            return rest(i, g) if r is None else None
        if op is _c.GROUPREF:
            if g.get(av) is None:
                return None
            a, b = g[av]
            if SymStr(self.cs)._at(i, mkstr(self.cs[a:b])):
                return rest(i + b - a, g)
            return None
        raise Unsupported('regex node %s' % op)

    def rep(self, sub, lo, hi, i, g, rest, greedy):
        # single-character bodies: find the longest run first
        if len(sub) == 1:
            cs = charset(sub[0][0], sub[0][1], self.flags)
            if cs is not None:
                if greedy:
                    j = i
                    while (hi is MAXREP or j - i < hi) and self.at(j, cs):
                        j += 1
                    while j - i >= lo:
                        r = rest(j, g)
                        if r is not None:
                            return r
                        j -= 1
                    return None
                j = i
                while j - i < lo:
                    if not self.at(j, cs):
                        return None
                    j += 1
                while True:
                    r = rest(j, g)
                    if r is not None:
                        return r
                    if (hi is not MAXREP and j - i >= hi) or not self.at(j, cs):
                        return None
                    j += 1

        def loop(n, i, g, last):
            def more():
                if (hi is MAXREP or n < hi) and not (n >= lo and last == i):
                    return self.seq(sub, 0, i, g, lambda j, g2: loop(n + 1, j, g2, i))
                return None
            if n < lo:
                return self.seq(sub, 0, i, g, lambda j, g2: loop(n + 1, j, g2, i))
            if greedy:
                r = more()
                return r if r is not None else rest(i, g)
            r = rest(i, g)
            return r if r is not None else more()
        return loop(0, i, g, -1)

    def anchor(self, av, i):
        if av in (_c.AT_BEGINNING, _c.AT_BEGINNING_STRING):
            if av is _c.AT_BEGINNING and self.flags & _re.MULTILINE:
                raise Unsupported('multiline anchor')
            return i == 0
        if av is _c.AT_END_STRING:
            return i == self.n
        if av is _c.AT_END:
            if self.flags & _re.MULTILINE:
                raise Unsupported('multiline anchor')
            return i == self.n or (i == self.n - 1 and self.at(i, lambda x: x == 10))
        if av in (_c.AT_BOUNDARY, _c.AT_NON_BOUNDARY):
            w = _cat('WORD')
            b = (i > 0 and self.at(i - 1, w)) != (i < self.n and self.at(i, w))
            return b == (av is _c.AT_BOUNDARY)
        raise Unsupported('regex anchor %s' % av)


class SymMatch:
    def __init__(self, pat, string, i, j, groups):
        self.re, self.string = pat, string
        self._g = dict(groups)
        self._g[0] = (i, j)
        self.pos, self.endpos = 0, len(string)

    def _key(self, k):
        if isstr(k):
            return self.re.groupindex[k if isinstance(k, str) else k.concretize()]
        if not 0 <= k <= self.re.groups:
            raise IndexError('no such group')
        return k

    def _one(self, k, default=None):
        s = self._g.get(self._key(k))
        return default if s is None else self.string[s[0]:s[1]]

    def group(self, *ks):
        if not ks:
            return self._one(0)
        if len(ks) == 1:
            return self._one(ks[0])
        return tuple(self._one(k) for k in ks)

    def __getitem__(self, k):
        return self._one(k)

    def groups(self, default=None):
        return tuple(self._one(k, default) for k in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: self._one(v, default) for k, v in self.re.groupindex.items()}

    def span(self, k=0):
        return self._g.get(self._key(k), (-1, -1))

    def start(self, k=0): return self.span(k)[0]
    def end(self, k=0): return self.span(k)[1]

    @property
    def lastindex(self):
        ks = [(v[1], k) for k, v in self._g.items() if k]
        return max(ks)[1] if ks else None


class SymPattern:
    def __init__(self, pattern, flags=0):
        self._re = _re.compile(pattern, flags)
        self.pattern, self.flags = self._re.pattern, self._re.flags
        self.groups, self.groupindex = self._re.groups, self._re.groupindex
        self._tree = None

    def tree(self):
        if self._tree is None:
            self._tree = list(_p.parse(self.pattern, self.flags))
        return self._tree

    def _at(self, s, i, full=False):
        cs = items(s)
        m = Matcher(cs, self.flags)
        r = m.seq(self.tree(), 0, i, {}, lambda j, g: (j, g) if not full or j == len(cs) else None)
        return None if r is None else SymMatch(self, s, i, r[0], r[1])

    def match(self, s, *a):
        if isinstance(s, str) or a:
            return self._re.match(s, *a)
        return self._at(s, 0)

    def fullmatch(self, s, *a):
        if isinstance(s, str) or a:
            return self._re.fullmatch(s, *a)
        return self._at(s, 0, True)

    def search(self, s, *a):
        if isinstance(s, str) or a:
            return self._re.search(s, *a)
        for i in range(len(s) + 1):
            r = self._at(s, i)
            if r is not None:
                return r
        return None

    def finditer(self, s, *a):
        if isinstance(s, str) or a:
            yield from self._re.finditer(s, *a)
            return
        i = 0
        while i <= len(s):
            r = self._at(s, i)
            if r is None:
                i += 1
                continue
            yield r
            i = r.end() if r.end() > i else i + 1

    def findall(self, s, *a):
        if isinstance(s, str) or a:
            return self._re.findall(s, *a)
        out = []
        for m in self.finditer(s):
            g = m.groups('')
            out.append(m.group() if not g else g[0] if len(g) == 1 else g)
        return out

    def split(self, s, maxsplit=0):
        if isinstance(s, str):
            return self._re.split(s, maxsplit)
        out, p = [], 0
        for m in self.finditer(s):
            if maxsplit and len(out) >= maxsplit:
                break
            out.append(s[p:m.start()])
            out.extend(m.groups())
            p = m.end()
        return out + [s[p:]]

    def sub(self, repl, s, count=0):
        if isinstance(s, str) and not isinstance(repl, SymStr):
            return self._re.sub(repl, s, count)
        out, p, n = [], 0, 0
        for m in self.finditer(s):
            if count and n >= count:
                break
            n += 1
            out.extend(items(s[p:m.start()]))
            if callable(repl):
                out.extend(items(repl(m)))
            else:
                if '\\' in (repl if isinstance(repl, str) else ''):
                    raise Unsupported('regex template')
                out.extend(items(repl))
            p = m.end()
        out.extend(items(s[p:]))
        return mkstr(out)


def _make():
    m = types.ModuleType('re')
    for k in dir(_re):
        if not k.startswith('__'):
            setattr(m, k, getattr(_re, k))
    cache = {}

    def compile(pattern, flags=0):
        if isinstance(pattern, SymPattern):
            return pattern
        k = (pattern, int(flags))
        if k not in cache:
            cache[k] = SymPattern(pattern, flags)
        return cache[k]
    m.compile = compile
    m.match = lambda p, s, flags=0: compile(p, flags).match(s)
    m.fullmatch = lambda p, s, flags=0: compile(p, flags).fullmatch(s)
    m.search = lambda p, s, flags=0: compile(p, flags).search(s)
    m.finditer = lambda p, s, flags=0: compile(p, flags).finditer(s)
    m.findall = lambda p, s, flags=0: compile(p, flags).findall(s)
    m.split = lambda p, s, maxsplit=0, flags=0: compile(p, flags).split(s, maxsplit)
    m.sub = lambda p, r, s, count=0, flags=0: compile(p, flags).sub(r, s, count)
    m.Pattern = SymPattern
    m.Match = SymMatch
    return m


RE = _make()
