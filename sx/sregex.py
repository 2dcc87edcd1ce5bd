"""Regular expressions over symbolic strings: a backtracking matcher on the tree of re._parser.

Concrete subjects go to the real re module."""
__sx__ = True

import re
import re._parser as sre_parse
import re._constants as C

from . import core
from .core import AND, OR, NOT, SymStr, DecAtom, Inconclusive, ch_in, ch_eq, mkstr, elems, ch_pred

_cache = {}


def _tree(pat):
    k = (pat.pattern, pat.flags)
    if k not in _cache:
        _cache[k] = sre_parse.parse(pat.pattern, pat.flags)
    return _cache[k]


def _cat(c, av):
    f = {C.CATEGORY_DIGIT: str.isdigit, C.CATEGORY_SPACE: str.isspace,
         C.CATEGORY_WORD: lambda ch: ch.isalnum() or ch == "_",
         C.CATEGORY_NOT_DIGIT: lambda ch: not ch.isdigit(),
         C.CATEGORY_NOT_SPACE: lambda ch: not ch.isspace(),
         C.CATEGORY_NOT_WORD: lambda ch: not (ch.isalnum() or ch == "_")}[av]
    return ch_pred(c, f)


def _in(c, items, flags):
    neg = False
    rs = []
    for op, av in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            rs.append(_lit(c, av, flags))
        elif op is C.RANGE:
            rs.append(_rng(c, av, flags))
        elif op is C.CATEGORY:
            rs.append(_cat(c, av))
        else:
            raise Inconclusive("regex class " + str(op))
    r = OR(*rs)
    return NOT(r) if neg else r


def _lit(c, av, flags):
    if flags & re.I:
        return ch_in(c, frozenset(map(ord, {chr(av), chr(av).lower(), chr(av).upper()})))
    return ch_eq(c, av)


def _rng(c, av, flags):
    lo, hi = av
    if isinstance(c, int):
        if flags & re.I:
            return any(lo <= ord(x) <= hi for x in (chr(c), chr(c).lower(), chr(c).upper()) if len(x) == 1)
        return lo <= c <= hi
    return ch_in(c, frozenset(d for d in c.dom if _rng(d, av, flags)))


class M(object):
    """match object"""

    def __init__(self, pat, string, spans):
        self.re = pat
        self.string = string
        self._s = spans

    def span(self, g=0):
        if isinstance(g, str):
            g = self.re.groupindex[g]
        return self._s.get(g, (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def _g(self, g):
        if isinstance(g, str):
            g = self.re.groupindex[g]
        elif g > self.re.groups:
            raise IndexError("no such group")
        if g not in self._s:
            return None
        a, b = self._s[g]
        return self.string[a:b]

    def group(self, *gs):
        if not gs:
            return self._g(0)
        if len(gs) == 1:
            return self._g(gs[0])
        return tuple(self._g(g) for g in gs)

    __getitem__ = _g

    def groups(self, default=None):
        return tuple(default if self._g(i) is None else self._g(i) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return dict((k, default if self._g(k) is None else self._g(k)) for k in self.re.groupindex)

    @property
    def lastindex(self):
        ks = [k for k in self._s if k]
        return max(ks) if ks else None

    def expand(self, t):
        return _expand(t, self)


def _run(seq, i, pos, s, groups, flags, k):
    """match seq[i:] at pos, then continuation k(pos, groups)"""
    if i >= len(seq):
        return k(pos, groups)
    op, av = seq[i]
    n = len(s)

    def nxt(p, g):
        return _run(seq, i + 1, p, s, g, flags, k)
    if op is C.LITERAL:
        if pos < n and bool(_lit(s[pos], av, flags)):
            return nxt(pos + 1, groups)
        return None
    if op is C.NOT_LITERAL:
        if pos < n and not bool(_lit(s[pos], av, flags)):
            return nxt(pos + 1, groups)
        return None
    if op is C.ANY:
        if pos < n and ((flags & re.S) or not bool(ch_eq(s[pos], 10))):
            return nxt(pos + 1, groups)
        return None
    if op is C.IN:
        if pos < n and bool(_in(s[pos], av, flags)):
            return nxt(pos + 1, groups)
        return None
    if op is C.AT:
        if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
            ok = pos == 0 or (av is C.AT_BEGINNING and (flags & re.M) and bool(ch_eq(s[pos - 1], 10)))
        elif av is C.AT_END:
            ok = pos == n or (pos == n - 1 and bool(ch_eq(s[pos], 10))) or \
                 ((flags & re.M) and pos < n and bool(ch_eq(s[pos], 10)))
        elif av is C.AT_END_STRING:
            ok = pos == n
        elif av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
            a = pos > 0 and bool(_cat(s[pos - 1], C.CATEGORY_WORD))
            b = pos < n and bool(_cat(s[pos], C.CATEGORY_WORD))
            ok = (a != b) == (av is C.AT_BOUNDARY)
        else:
            raise Inconclusive("regex anchor " + str(av))
        return nxt(pos, groups) if ok else None
    if op is C.SUBPATTERN:
        grp, add, rem, p = av
        fl = (flags | add) & ~rem

        def after(e, g):
            if grp is not None:
                g = dict(g)
                g[grp] = (pos, e)
            return nxt(e, g)
        return _run(p, 0, pos, s, groups, fl, after)
    if op is C.BRANCH:
        for p in av[1]:
            r = _run(p, 0, pos, s, groups, flags, nxt)
            if r is not None:
                return r
        return None
    if op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
        lo, hi, p = av
        if op is C.POSSESSIVE_REPEAT:
            raise Inconclusive("possessive repeat")

        def rep(cnt, e, g):
            def more():
                if cnt >= hi:
                    return None
                return _run(p, 0, e, s, g, flags,
                            lambda e2, g2: rep(cnt + 1, e2, g2) if (e2 > e or cnt < lo) else None)
            if cnt < lo:
                return more()
            if op is C.MAX_REPEAT:
                r = more()
                if r is not None:
                    return r
                return nxt(e, g)
            r = nxt(e, g)
            if r is not None:
                return r
            return more()
        return rep(0, pos, groups)
    if op is C.GROUPREF:
        if av not in groups:
            return None
        a, b = groups[av]
        for x in s[a:b]:
            if pos >= n or not bool(ch_eq(s[pos], x)):
                return None
            pos += 1
        return nxt(pos, groups)
    if op in (C.ASSERT, C.ASSERT_NOT):
        direction, p = av
        if direction < 0:
            w = p.getwidth()
            if w[0] != w[1]:
                raise Inconclusive("variable lookbehind")
            st = pos - w[0]
            r = None if st < 0 else _run(p, 0, st, s, groups, flags, lambda e, g: (e, g))
        else:
            r = _run(p, 0, pos, s, groups, flags, lambda e, g: (e, g))
        if (r is not None) == (op is C.ASSERT):
            return nxt(pos, r[1] if (r is not None and op is C.ASSERT) else groups)
        return None
    raise Inconclusive("regex op " + str(op))


def _at(pat, string, pos, full=False):
    s = string._noatoms("regex") if isinstance(string, SymStr) else elems(string)
    n = len(s)

    def fin(e, g):
        if full and e != n:
            return None
        return (e, g)
    t = _tree(pat)
    r = _run(t, 0, pos, s, {}, t.state.flags | pat.flags, fin)
    if r is None:
        return None
    g = dict(r[1])
    g[0] = (pos, r[0])
    return M(pat, string, g)


def _nat(s):
    return not isinstance(s, SymStr)


def match(pat, s, pos=0, endpos=None):
    if _nat(s):
        return pat.match(s, pos) if endpos is None else pat.match(s, pos, endpos)
    return _at(pat, s if endpos is None else s[:endpos], pos)


def fullmatch(pat, s, pos=0, endpos=None):
    if _nat(s):
        return pat.fullmatch(s, pos) if endpos is None else pat.fullmatch(s, pos, endpos)
    return _at(pat, s if endpos is None else s[:endpos], pos, True)


def search(pat, s, pos=0, endpos=None):
    if _nat(s):
        return pat.search(s, pos) if endpos is None else pat.search(s, pos, endpos)
    if endpos is not None:
        s = s[:endpos]
    for p in range(pos, len(s) + 1):
        m = _at(pat, s, p)
        if m is not None:
            return m
    return None


def finditer(pat, s, pos=0):
    if _nat(s):
        for m in pat.finditer(s, pos):
            yield m
        return
    p = pos
    n = len(s)
    last = -1
    while p <= n:
        m = _at(pat, s, p)
        if m is None or (m.end() == m.start() and m.start() == last):
            p += 1
            continue
        yield m
        last = m.end()
        p = m.end() if m.end() > m.start() else m.end() + 1
        if m.end() == m.start():
            pass


def findall(pat, s, pos=0):
    if _nat(s):
        return pat.findall(s, pos)
    out = []
    for m in finditer(pat, s, pos):
        if pat.groups == 0:
            out.append(m.group())
        elif pat.groups == 1:
            out.append(m.group(1) or "")
        else:
            out.append(tuple(x or "" for x in m.groups()))
    return out


def _expand(t, m):
    if not isinstance(t, str):
        return t
    if "\\" not in t:
        return t
    out = []
    i = 0
    while i < len(t):
        if t[i] == "\\" and i + 1 < len(t):
            c = t[i + 1]
            if c.isdigit():
                out.append(m.group(int(c)) or "")
                i += 2
                continue
            if c == "g":
                j = t.index(">", i)
                nm = t[i + 3:j]
                out.append(m.group(int(nm) if nm.isdigit() else nm) or "")
                i = j + 1
                continue
            out.append({"n": "\n", "t": "\t", "r": "\r"}.get(c, c))
            i += 2
        else:
            out.append(t[i])
            i += 1
    return core.join("", out)


def sub(pat, repl, s, count=0):
    if _nat(s) and not isinstance(repl, SymStr):
        if callable(repl):
            from . import hooks
            if isinstance(repl, type(lambda: 0)):
                pass
            else:
                return pat.sub(repl, s, count)
        else:
            return pat.sub(repl, s, count)
    out = []
    prev = 0
    n = 0
    for m in finditer(pat, s):
        if count and n >= count:
            break
        out.append(s[prev:m.start()])
        out.append(repl(m) if callable(repl) else (_expand(repl, m) if not _nat(s) else repl))
        prev = m.end()
        n += 1
    out.append(s[prev:])
    return core.join("", out)


def split(pat, s, maxsplit=0):
    if _nat(s):
        return pat.split(s, maxsplit)
    out = []
    prev = 0
    n = 0
    for m in finditer(pat, s):
        if maxsplit and n >= maxsplit:
            break
        out.append(s[prev:m.start()])
        out.extend(m.groups())
        prev = m.end()
        n += 1
    out.append(s[prev:])
    return out
