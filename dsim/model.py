"""Reference model: what a URL is made of, what a pattern means.

Written from the README, shares no code with the repository.
"""
import re

LOWER = 'abcdefghijklmnopqrstuvwxyz'
UPPER = LOWER.upper()
DIGITS = '0123456789'
PLAIN_SIGNS = '%&_@#;:,=<>~/'
ESC_SIGNS = '.+\\"\'()[]{}*$^?|!-'

RULE = {}
for _c in LOWER:
    RULE[_c] = 'a-z'
for _c in UPPER:
    RULE[_c] = 'A-Z'
for _c in DIGITS:
    RULE[_c] = '0-9'
for _c in PLAIN_SIGNS:
    RULE[_c] = _c
for _c in ESC_SIGNS:
    RULE[_c] = '\\' + _c
ALNUM = frozenset(('a-z', 'A-Z', '0-9'))
MIXED = frozenset(('a-z', 'A-Z', '0-9', '%'))
RULES = frozenset(RULE.values())
DOT = '\\.'


def runs(s):
    """[(rule, text)] maximal runs of one character space."""
    out = []
    for c in s:
        r = RULE[c]
        if out and out[-1][0] == r:
            out[-1][1] += c
        else:
            out.append([r, c])
    return [(r, t) for r, t in out]


def sign_lit(rule, n):
    return '[%s]' % rule if n == 1 else '[%s]{%d}' % (rule, n)


def literal(s):
    """The literal pattern of a piece."""
    return ''.join(t if r in ALNUM else sign_lit(r, len(t)) for r, t in runs(s))


def norm_key(k):
    """A query key as patterns spell it ('=' stays as it is)."""
    out = []
    i = 0
    while i < len(k):
        c = k[i]
        j = i
        while j < len(k) and k[j] == c:
            j += 1
        if RULE[c] in ALNUM or c == '=':
            out.append(c * (j - i))
        else:
            out.append(sign_lit(RULE[c], j - i))
        i = j
    return ''.join(out)


class U(object):
    """A decomposed URL."""
    __slots__ = ('path', 'keys', 'values', 'fragment')

    def __init__(self, path, keys, values, fragment):
        self.path = path
        self.keys = keys
        self.values = values
        self.fragment = fragment

    @property
    def pieces(self):
        return self.path + self.values + ((self.fragment,) if self.fragment is not None else ())

    @property
    def key(self):
        """Identity of the URL."""
        return (self.path, self.keys, self.values, self.fragment)

    @property
    def structure(self):
        return (len(self.path), self.keys, self.fragment is not None)

    @property
    def digest_key(self):
        return (self.structure, tuple(frozenset(RULE[c] for c in p) for p in self.pieces))

    @property
    def norm(self):
        """The part of the URL a pattern, read as a regular expression, describes."""
        s = '/' + '/'.join(self.path)
        if self.keys:
            s += '?' + '&'.join(k + v for k, v in zip(self.keys, self.values))
        if self.fragment is not None:
            s += '#' + self.fragment
        return s

    @property
    def literal(self):
        return pack(self, [literal(p) for p in self.pieces])


def pack(u, pats):
    n = len(u.path)
    q = len(u.keys)
    s = '/' + '/'.join(pats[:n])
    if q:
        s += '[\\?]' + '&'.join(norm_key(k) + v for k, v in zip(u.keys, pats[n:n + q]))
    if u.fragment is not None:
        s += '#' + pats[n + q]
    return s


class Bad(Exception):
    pass


def split_query(q):
    """query string -> keys, values (raises Bad)."""
    if q is None:
        return (), ()
    if q == '':
        return ('',), ('',)
    parts = q.split('&')
    if '' in parts:
        raise Bad('ampersand')
    if len(parts) == 1 and '=' not in q:
        return ('',), (q,)
    keys, values = [], []
    for p in parts:
        k, e, v = p.partition('=')
        keys.append(k + e)
        values.append(v)
    return tuple(keys), tuple(values)


_HEAD = re.compile(r'(https?|ftp)://[^/?#]*')


def decompose(url):
    """U of an absolute URL, or Bad with the reason."""
    m = _HEAD.match(url)
    if not m:
        raise Bad('not-url')
    rest = url[m.end():]
    rest, h, fragment = rest.partition('#')
    if not h:
        fragment = None
    path, h, query = rest.partition('?')
    if not h:
        query = None
    if not path.startswith('/'):
        raise Bad('no-path')
    head, _, last = path.rpartition('/')
    path = head + '/' + last.split(';', 1)[0]
    pieces = path.split('/')[1:]
    pieces = [p for p in pieces[:-1] if p] + [pieces[-1]]
    keys, values = split_query(query)
    for s in pieces + list(keys) + list(values) + [fragment or '']:
        for c in s:
            if c not in RULE:
                raise Bad('char')
    return U(tuple(pieces), keys, values, fragment)


_cache = {}


def url(u):
    """Decomposed URL or None when it has to be rejected."""
    try:
        return _cache[u]
    except KeyError:
        try:
            r = decompose(u)
        except Bad:
            r = None
        if len(_cache) > 20000:
            _cache.clear()
        _cache[u] = r
        return r


# -- patterns -------------------------------------------------------------

class Unit(object):
    """kind: lit (text), fix (rules, n), wild (rules)."""
    __slots__ = ('kind', 'rules', 'n', 'text')

    def __init__(self, kind, rules, n, text):
        self.kind, self.rules, self.n, self.text = kind, rules, n, text

    def __repr__(self):
        return '%s(%s)' % (self.kind, self.text)


_UNIT = re.compile(r'\[((?:\\.|[^\\\]])*)\](\{(\d+)\}|\+)?|[a-z]+|[A-Z]+|[0-9]+', re.S)


def class_rules(body):
    out = []
    i = 0
    while i < len(body):
        if body[i] == '\\':
            r = body[i:i + 2]
        elif body[i].isalnum():
            r = body[i:i + 3]
        else:
            r = body[i]
        if r not in RULES:
            return None
        out.append(r)
        i += len(r)
    return frozenset(out)


def units(p):
    """Units of the pattern of one piece; None when it is not a pattern."""
    out = []
    i = 0
    while i < len(p):
        m = _UNIT.match(p, i)
        if not m:
            return None
        t = m.group(0)
        if t[0] != '[':
            out.append(Unit('lit', frozenset((RULE[t[0]],)), len(t), t))
        else:
            rules = class_rules(m.group(1))
            if not rules:
                return None
            if m.group(2) == '+':
                out.append(Unit('wild', rules, None, t))
            else:
                n = int(m.group(3)) if m.group(3) else 1
                if n < len(rules):
                    return None
                kind = 'fix'
                if len(rules) == 1 and not rules & ALNUM:
                    kind = 'lit'
                out.append(Unit(kind, rules, n, t))
        i = m.end()
    return out


class P(object):
    __slots__ = ('text', 'structure', 'pieces')

    def __init__(self, text, structure, pieces):
        self.text, self.structure, self.pieces = text, structure, pieces

    @property
    def is_literal(self):
        return all(u.kind == 'lit' for p in self.pieces for u in p)


_pcache = {}


def pattern(text):
    try:
        return _pcache[text]
    except KeyError:
        if len(_pcache) > 20000:
            _pcache.clear()
        r = _pcache[text] = _pattern(text)
        return r


def _pattern(text):
    """P of a URL pattern, or None when the text is not one."""
    if not text.startswith('/'):
        return None
    rest = text
    q = rest.find('[\\?]')
    f = rest.find('#')
    fragment = query = None
    if f >= 0 and (q < 0 or f < q):
        rest, fragment = rest[:f], rest[f + 1:]
    elif q >= 0:
        rest, query = rest[:q], rest[q + 4:]
        if '#' in query:
            query, _, fragment = query.partition('#')
    path = rest.split('/')[1:]
    if any(p == '' for p in path[:-1]):
        return None
    try:
        keys, values = split_query(query)
    except Bad:
        return None
    pieces = path + list(values) + ([fragment] if fragment is not None else [])
    us = []
    for p in pieces:
        x = units(p)
        if x is None:
            return None
        us.append(x)
    return P(text, (len(path), keys, fragment is not None), us)


def strict_piece(us, s):
    """Does the pattern of one piece match the piece strictly?  Returns the
    segment boundaries of the first match, or None."""
    if not us:
        return [] if s == '' else None
    rs = runs(s)
    if not rs:
        return None
    return _align(us, rs)


def _ends(u, rs, j):
    """Where the unit may end if it starts at run j."""
    seen = set()
    text = 0
    k = j
    while k < len(rs):
        r, t = rs[k]
        if r not in u.rules:
            return
        seen.add(r)
        text += len(t)
        k += 1
        if u.kind != 'wild' and text > u.n:
            return
        ok = len(seen) == len(u.rules) and (u.kind == 'wild' or text == u.n)
        if ok and u.kind == 'lit' and u.text[0] != '[' and t != u.text:
            ok = False
        if ok:
            yield k


def _align(us, rs):
    at = [0]                        # where the units start
    todo = [_ends(us[0], rs, 0)]    # the ends that are left to try
    while todo:
        k = next(todo[-1], None)
        if k is None:
            todo.pop()
            at.pop()
        elif len(todo) < len(us):
            at.append(k)
            todo.append(_ends(us[len(todo)], rs, k))
        elif k == len(rs):
            at.append(k)
            return list(zip(at, at[1:]))
    return None


def strict_match(p, u):
    """Strict match of pattern P and URL U."""
    if p.structure != (len(u.path), tuple(norm_key(k) for k in u.keys), u.fragment is not None):
        return False
    return all(strict_piece(x, s) is not None for x, s in zip(p.pieces, u.pieces))


def regex_match(text, u):
    return re.fullmatch(text, u.norm) is not None


def refines(a, b, u):
    """Pattern a accepts nothing that pattern b does not (both match u)."""
    for x, y, s in zip(a.pieces, b.pieces, u.pieces):
        sx = strict_piece(x, s)
        sy = strict_piece(y, s)
        ends = {e for _, e in sx}
        if any(e not in ends for _, e in sy):
            return False
        for (lo, hi), uy in zip(sy, y):
            for (l, h), ux in zip(sx, x):
                if lo <= l and h <= hi:
                    if uy.kind == 'lit' and ux.kind != 'lit':
                        return False
                    if uy.kind == 'fix' and ux.kind == 'wild':
                        return False
    return True


# -- generalisation -------------------------------------------------------

def spec(rules, n):
    return '[%s]' % ''.join(sorted(rules)) + ('' if n == 1 else '{%d}' % n)


def wild(rules):
    return '[%s]+' % ''.join(sorted(rules))


def _segs_mixed(rs):
    out = []
    for r, t in rs:
        if r in MIXED and out and out[-1][0] <= MIXED:
            out[-1] = (out[-1][0] | {r}, out[-1][1] + t)
        else:
            out.append((frozenset((r,)), t))
    return out


def _one(rng, rules, t, p_lit=0.4):
    if len(rules) == 1 and not rules & ALNUM:
        return literal(t) if rng.random() < 0.75 else wild(rules)
    x = rng.random()
    if x < p_lit:
        return literal(t)
    if x < p_lit + (1 - p_lit) / 2:
        return spec(rules, len(t))
    return wild(rules)


def generalise(rng, s, last_path):
    """A pattern of the kinds clustering produces, which the piece s has."""
    if s == '':
        return ''
    rs = runs(s)
    x = rng.random()
    allr = frozenset(r for r, _ in rs)
    if x < 0.25:
        return literal(s)
    if x < 0.35:
        return wild(allr)
    if x < 0.45:
        return spec(allr, len(s))
    if x < 0.65 and last_path:
        d = None
        for k in range(len(rs) - 1, max(-1, len(rs) - 4), -1):
            if rs[k][0] == DOT:
                d = k
                break
            if rs[k][0] not in ALNUM:
                break
        if d:
            base = ''.join(t for _, t in rs[:d])
            br = frozenset(r for r, _ in rs[:d])
            ext = literal(''.join(t for _, t in rs[d + 1:]))
            return (_one(rng, br, base, 0.2) if len(br) > 1 else _one(rng, br, base, 0.4)) + \
                literal(rs[d][1]) + ext
    if x < 0.8 and len(_segs_mixed(rs)) > 1:
        return ''.join(_one(rng, r, t) for r, t in _segs_mixed(rs))
    return ''.join(_one(rng, frozenset((r,)), t) for r, t in rs)


def generalise_url(rng, u):
    n = len(u.path)
    return pack(u, [generalise(rng, s, i == n - 1) for i, s in enumerate(u.pieces)])
