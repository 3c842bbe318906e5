"""Workloads: URL sets with known structure, from a seeded PRNG."""
import random

from . import model

WORDS = ['news', 'item', 'a', 'b', 'post', 'Blog', 'USER', 'view', 'p', 'list', 'x1',
         'cat', 'page', 'en', 'zh', 'topic', 'read', 'v2', 'index', 'show']
EXTS = ['html', 'htm', 'shtml', 'mp3', 'php', 'JPG', 'tar.gz', '7z', '', 'h264']
# extensions of several runs, and with signs
ODD_EXTS = ['html', 'mp3', '7z', 'h264', 'm3u8', 'x3d', 'mp4a', 'Mp3', 'r0b1C', 'txt~', 'c++', '~', '--', '_1', '%20', 'a-b', '', 'tar.gz', '.']
HOSTS = ['www.example.com', 'example.com', 'a.b.c:8080', 'h', '10.0.0.1', 'u@h.com']
SIGN_PATH = '%&_@:,=<>~.+\\"\'()[]{}*$^|!-'
SIGN_VAL = '%_@;:,=<>~/.+\\"\'()[]{}*$^?|!-'
SIGN_KEY = '%_@;:,<>~/.+\\"\'()[]{}*$^?|!-'
SIGN_FRAG = '%&_@#;:,=<>~/.+\\"\'()[]{}*$^?|!-'


def word(rng, alpha, lo, hi):
    return ''.join(rng.choice(alpha) for _ in range(rng.randint(lo, hi)))


class Piece(object):
    """Generator of the values of one position."""
    KINDS = ('const', 'pool', 'digits', 'digits_fixed', 'lower', 'upper', 'slug', 'hash',
             'uuid', 'pct', 'file', 'file2', 'signs', 'special', 'soup', 'date', 'shape', 'stem', 'empty', 'void', 'long')

    def __init__(self, rng, signs, kind=None, mcn=3, last=False, allow_empty=False):
        w = {'const': 6, 'pool': 4, 'digits': 4, 'digits_fixed': 3, 'lower': 3, 'upper': 1,
             'slug': 4, 'hash': 2, 'uuid': 1, 'pct': 1, 'file': 5 if last else 1,
             'file2': 2 if last else 1, 'signs': 1, 'special': 1, 'soup': 2, 'date': 1,
             'shape': 3, 'stem': 2 if last else 0.3, 'empty': 1 if allow_empty else 0, 'void': 0.5 if allow_empty else 0,
             'long': 0.15}
        self.kind = kind or rng.choices(list(w), list(w.values()))[0]
        self.signs = signs
        self.sub = ''.join(rng.sample(signs, min(len(signs), rng.randint(1, 3))))
        self.word = rng.choice(WORDS)
        self.n = rng.randint(1, 9)
        self.exts = rng.sample(EXTS, rng.randint(1, 3))
        k = self.kind
        if k == 'stem':
            # the same character spaces in any order, in front of a few extensions
            self.cls = rng.sample([model.DIGITS, model.LOWER, model.UPPER] + list(self.sub), rng.randint(1, 3))
            self.odd = rng.sample(ODD_EXTS, rng.choice((1, 1, 1, 2)))
            self.odd = [''.join(c for c in e if RULEOK(c, signs)) for e in self.odd]
            self.times = rng.choice((1, 1, 2))
        elif k == 'pool':
            base = Piece(rng, signs, rng.choice(('digits', 'lower', 'slug', 'soup', 'file')), mcn)
            self.pool = [base(rng) for _ in range(rng.randint(1, mcn + 1))]
        elif k == 'shape':
            # the same character spaces in the same order
            shape = []
            for _ in range(rng.randint(1, 6)):
                shape.append(rng.choice(('0', 'a', 'A', 's', 'a', '0')))
            self.shape = [(c, rng.choice(self.sub), rng.random() < 0.3, rng.randint(1, 5))
                          for c in shape]
            self.fixed = {i: word(rng, {'0': model.DIGITS, 'a': model.LOWER,
                                        'A': model.UPPER}.get(c, s), n, n)
                          for i, (c, s, f, n) in enumerate(self.shape) if f}
            self.vary = rng.random() < 0.5

    def __call__(self, rng):
        k = self.kind
        if k == 'const':
            return self.word
        if k == 'pool':
            return rng.choice(self.pool)
        if k == 'digits':
            return word(rng, model.DIGITS, 1, self.n)
        if k == 'digits_fixed':
            return word(rng, model.DIGITS, self.n, self.n)
        if k == 'lower':
            return word(rng, model.LOWER, 1, self.n)
        if k == 'upper':
            return word(rng, model.UPPER, 1, self.n)
        if k == 'slug':
            return rng.choice(self.sub).join(
                [rng.choice((rng.choice(WORDS), word(rng, model.DIGITS, 1, 4),
                             word(rng, model.LOWER, 1, 4)))
                 for _ in range(rng.randint(1, 4))])
        if k == 'hash':
            return word(rng, '0123456789abcdef', max(4, self.n), max(4, self.n))
        if k == 'uuid':
            return '-'.join(word(rng, '0123456789abcdef', x, x) for x in (8, 4, 4, 4, 12))
        if k == 'pct' and '%' in self.signs:
            return ''.join('%' + word(rng, '0123456789ABCDEF', 2, 2)
                           if rng.random() < .5 else word(rng, model.LOWER, 1, 3)
                           for _ in range(rng.randint(1, 4)))
        if k == 'file':
            return rng.choice((self.word, word(rng, model.DIGITS, 1, 4),
                               word(rng, model.LOWER + model.DIGITS, 1, self.n))) + \
                '.' + rng.choice(self.exts)
        if k == 'file2':
            return rng.choice(self.sub).join(
                [rng.choice((rng.choice(WORDS), word(rng, model.DIGITS, 1, 4)))
                 for _ in range(rng.randint(1, 5))]) + '.' + rng.choice(self.exts)
        if k == 'signs':
            return ''.join(rng.choice(self.sub) * rng.choice((1, 1, 2, 3, 10, 12))
                           for _ in range(rng.randint(1, 2)))
        if k == 'special':
            s = rng.choice(('[a]', '[0-9]+', '{3}', '[-]{2}', '\\', '\\[', ']', '[', '}', 'a[b',
                            '[\\.]', '(.*)', '\\\\x', '[]', '{}', '.html.', '..', '.a', 'a.',
                            "'\"", '$^|', '[[a]]{2}', 'a{2}', 'x]{3}', '\\]{2}')) + \
                rng.choice(('', word(rng, model.DIGITS, 1, 2)))
            s = ''.join(c for c in s if RULEOK(c, self.signs))
            return s or 'z'
        if k == 'date':
            return '%04d-%02d-%02d' % (rng.randint(1999, 2021), rng.randint(1, 12), rng.randint(1, 28))
        if k == 'shape':
            out = []
            for i, (c, s, f, n) in enumerate(self.shape):
                if f:
                    out.append(self.fixed[i])
                    continue
                al = {'0': model.DIGITS, 'a': model.LOWER, 'A': model.UPPER}.get(c, s)
                out.append(word(rng, al, 1 if self.vary else n, n))
            return ''.join(out)
        if k == 'stem':
            l = [rng.choice(c) * (1 if rng.random() < 0.8 else 2) for c in self.cls * self.times]
            l += [rng.choice(rng.choice(self.cls)) for _ in range(rng.randint(0, 3))]
            rng.shuffle(l)
            return ''.join(l) + '.' + rng.choice(self.odd)
        if k == 'void':
            return ''
        if k == 'long' and rng.random() < 0.1:
            return word(rng, model.LOWER, 1, 9000)
        if k == 'long':
            return word(rng, self.sub + model.LOWER[:4] + model.DIGITS, 20, 300)
        if k == 'empty':
            return rng.choice(('', '', word(rng, model.LOWER, 1, 2)))
        return word(rng, model.LOWER[:3] + model.DIGITS[:3] + 'AB' + self.sub * 2, 1, self.n)


def RULEOK(c, signs):
    return model.RULE[c] in model.ALNUM or c in signs


class Template(object):
    def __init__(self, rng, mcn, deep=False, wide=False):
        d = rng.choice((1, 1, 2, 2, 2, 3, 3, 4, 5))
        if deep:
            d = rng.randint(12, 60)
        elif rng.random() < 0.02:
            d = rng.randint(6, 15)
        self.path = [Piece(rng, SIGN_PATH.replace(';', ''), mcn=mcn, last=i == d - 1,
                           allow_empty=i == d - 1) for i in range(d)]
        q = rng.choice((0, 0, 0, 1, 1, 2, 3))
        if rng.random() < 0.02:
            q = rng.randint(4, 12)
        elif wide and rng.random() < 0.01:
            q = rng.choice((rng.randint(12, 40), rng.randint(40, 80)))
        self.keys = []
        for _ in range(q):
            k = rng.choice(('id', 'q', 'page', 'a-b', 'x--y', 'k[0]', 'U', 'a_b', '1', 'sort.by',
                            'a%20', ''))
            if rng.random() < 0.1:
                k = word(rng, model.LOWER + SIGN_KEY, 1, 4)
            self.keys.append((k, rng.random() < 0.85))
        if q == 1 and rng.random() < 0.15:
            self.keys = [(None, False)]     # key-less
        elif q > 1:
            self.keys = [(k or 'w', e) if not e else (k, e) for k, e in self.keys]
        elif q == 1:
            self.keys = [(self.keys[0][0], True)]
        self.values = [Piece(rng, SIGN_VAL if k is not None else SIGN_VAL.replace('=', ''),
                             mcn=mcn, allow_empty=True) for k, _ in self.keys]
        bare = rng.random() < 0.03          # a lone '?'
        if bare:
            self.keys = [(None, False)]
            self.values = [Piece(rng, SIGN_VAL, rng.choice(('void', 'empty')), mcn=mcn)]
        self.frag = None
        if bare and rng.random() < 0.5 or rng.random() < 0.2:
            self.frag = Piece(rng, SIGN_FRAG, mcn=mcn, allow_empty=True)
        self.dress = rng.random()
        self.slash = rng.random() < 0.1
        # a key that differs from URL to URL: different structures that look alike
        self.vkey = rng.randrange(len(self.keys)) if self.keys and not bare and self.keys[0][0] is not None \
            and rng.random() < 0.06 else None
        self.vword = rng.choice((model.LOWER, model.DIGITS, 'ab-', 'a.b'))
        self.vlen = rng.randint(1, 3)

    def __call__(self, rng):
        """(url, U) ground truth by construction."""
        path = [p(rng) for p in self.path]
        if self.slash:
            path[-1] = ''
        for i in range(len(path) - 1):
            if not path[i]:
                path[i] = 'e'
        keys, vals = [], []
        for i, ((k, e), v) in enumerate(zip(self.keys, self.values)):
            if i == self.vkey:
                k = word(rng, self.vword, self.vlen, self.vlen)
            if k is None:
                keys.append('')
                vals.append(v(rng))
            elif e:
                keys.append(k + '=')
                vals.append(v(rng))
            else:
                keys.append(k)
                vals.append('')
        frag = self.frag(rng) if self.frag else None
        u = model.U(tuple(path), tuple(keys), tuple(vals), frag)
        return dress(rng, u, self.dress < 0.1), u


def dress(rng, u, fancy=False):
    """A URL text for the identity u: scheme, host, params, doubled slashes vary."""
    sep = '/'
    s = rng.choice(('http', 'https')) + '://' + rng.choice(HOSTS) + '/'
    if fancy and rng.random() < 0.3:
        sep = rng.choice(('//', '///'))
        s += '/' * rng.randint(0, 1) if u.path[0] or len(u.path) == 1 else ''
    s += sep.join(u.path)
    if fancy and rng.random() < 0.3:
        s += ';' + rng.choice(('v=1', '', 'jsessionid=A0', 'a;b', 'x y'))
    if u.keys:
        s += '?' + '&'.join(k + v for k, v in zip(u.keys, u.values))
    if u.fragment is not None:
        s += '#' + u.fragment
    return s


def mutate_piece(rng, s, signs):
    """A near miss: same structure, one character changed, added or removed."""
    if not s:
        return rng.choice(('a', '0'))
    i = rng.randrange(len(s))
    c = s[i]
    pool = {'a-z': model.LOWER, 'A-Z': model.UPPER, '0-9': model.DIGITS}.get(model.RULE[c], c)
    x = rng.random()
    if x < 0.4:
        return s[:i] + rng.choice(pool) + s[i + 1:]
    if x < 0.6:
        return s[:i] + rng.choice(pool) + s[i:]
    if x < 0.75 and len(s) > 1:
        return s[:i] + s[i + 1:]
    if x < 0.9:
        j = rng.randrange(len(s))
        l = list(s)
        l[i], l[j] = l[j], l[i]
        return ''.join(l)
    return s[:i] + rng.choice(model.LOWER + model.DIGITS + signs) + s[i + 1:]


def mutate(rng, u):
    path, values, frag = list(u.path), list(u.values), u.fragment
    n = rng.randrange(len(u.pieces))
    if rng.random() < 0.08:
        # with or without an empty part
        x = rng.randrange(3)
        if x == 0 and not frag:
            frag = '' if frag is None else None
        elif x == 1 and u.keys in ((), ('',)) and not any(values):
            return model.U(u.path, () if u.keys else ('',), () if u.keys else ('',), frag)
        elif x == 2 and any(path):
            path = path[:-1] if not path[-1] else path + ['']
        return model.U(tuple(path), u.keys, tuple(values), frag)
    if len(path) > 1 and rng.random() < 0.15:
        # the border between two levels moved
        i = rng.randrange(len(path) - 1)
        s = path[i] + path[i + 1]
        if len(s) > 1:
            j = rng.randint(1, len(s) - 1)
            path[i], path[i + 1] = s[:j], s[j:]
    elif n < len(path):
        path[n] = mutate_piece(rng, path[n], SIGN_PATH)
        if not path[n] and n < len(path) - 1:
            path[n] = 'e'
    elif n < len(path) + len(values):
        i = n - len(path)
        if u.keys[i].endswith('='):
            values[i] = mutate_piece(rng, values[i], SIGN_VAL)
        elif u.keys[i] == '' and len(u.keys) == 1:
            values[i] = mutate_piece(rng, values[i], SIGN_VAL.replace('=', ''))
    else:
        frag = mutate_piece(rng, frag, SIGN_FRAG)
    return model.U(tuple(path), u.keys, tuple(values), frag)


def huge_set(rng, mcn):
    """More than a thousand URLs: of many structures, or of a few."""
    size = rng.randint(1050, 1600)
    if rng.random() < 0.5:
        # one level with very many different pieces
        k = rng.choice(('http://h/broad/%d', 'http://h/%d/broad', 'http://h/b?id=%d&x=1', 'http://h/b-%d.html', 'http://h/a#%d'))
        start = rng.choice((0, 1000, 10 ** 6))
        out = [k % (start + i * 7) for i in range(size)]
        rng.shuffle(out)
        return out
    ts = [Template(rng, mcn) for _ in range(rng.choice((2, 6, 400)))]
    out = []
    while len(out) < size:
        t = rng.choice(ts)
        for _ in range(rng.choice((1, mcn, 2 * mcn)) * (1 if len(ts) > 10 else 8)):
            out.append(t(rng)[0])
    rng.shuffle(out)
    return [u for u in out[:size] if model.url(u) is not None]


def deep_urls(rng):
    """URLs of about a thousand levels, or with a piece of as many parts."""
    n = rng.randint(900, 1400)
    if rng.random() < 0.5:
        return ['http://h/' + '/'.join(['a'] * n) + '/%d' % i for i in range(rng.randint(1, 5))]
    return ['http://h/' + '-'.join(['a'] * n) + '-%d' % i for i in range(rng.randint(1, 5))]


class Spot(object):
    """Values of one position, all of the same character spaces: they meet in one maker."""

    def __init__(self, rng, signs, mcn, last):
        n = rng.choice((1, 1, 2, 2, 3, 4))
        self.cls = rng.sample([model.DIGITS, model.LOWER, model.LOWER, model.UPPER]
                              + rng.sample('-_.' if last else '-_.~', 2) + [rng.choice(signs)], n)
        self.ext = rng.choice(ODD_EXTS[:8]) if last and rng.random() < 0.5 else None
        if self.ext:
            # name and extension: the signs of the name without the dot
            self.cls = [c for c in self.cls if c != '.'] or [model.LOWER]
        self.kinds = [self.kind(rng) for _ in range(rng.choice((1, 1, 2, 2, 3, mcn, mcn + 1)))]
        self.weights = [rng.choice((1, 1, 2, 5)) for _ in self.kinds]

    def kind(self, rng):
        k = rng.choice(('const', 'const', 'fixed', 'vary', 'vary', 'any', 'any', 'part', 'repeat'))
        if self.ext is not None and rng.random() < 0.4:
            k = 'any'
        order = self.cls[:]
        rng.shuffle(order)
        if k == 'repeat':
            order = order * 2
        if k == 'const':
            return ''.join(rng.choice(c) for c in order)
        if k == 'any':
            return None
        return [(rng.randint(1, 4), rng.choice((0, 3)) if k != 'fixed' else 0,
                 rng.choice(c) if k == 'part' and rng.random() < 0.4 else c) for c in order]

    def __call__(self, rng, i=None):
        k = self.kinds[i % len(self.kinds)] if i is not None else rng.choices(self.kinds, self.weights)[0]
        if k is None:
            l = [rng.choice(c) for c in self.cls] + [rng.choice(rng.choice(self.cls)) for _ in range(rng.randint(0, 3))]
            rng.shuffle(l)
            out = ''.join(l)
        elif isinstance(k, str):
            out = k
        else:
            out = ''.join(word(rng, c, n, n + v) for n, v, c in k)
        if self.ext is not None:
            out += '.' + self.ext
        return out


def focus_set(rng, mcn, size):
    """URLs of one structure, close to each other: what the clustering works on."""
    d = rng.choice((1, 1, 2, 2, 3, 4))
    q = rng.choice((0, 0, 0, 1, 2))
    f = rng.random() < 0.1
    path = [Spot(rng, SIGN_PATH, mcn, i == d - 1) for i in range(d)]
    vals = [Spot(rng, SIGN_VAL, mcn, False) for _ in range(q)]
    frag = Spot(rng, SIGN_FRAG, mcn, False) if f else None
    keys = tuple(rng.choice(('id', 'q', 'page', 'U')) + '=' for _ in range(q))
    tied = rng.random() < 0.4           # what follows depends on what went before
    out, known = [], []
    while len(out) < size:
        u = None
        if known and rng.random() < 0.3:
            # a neighbour: all but one position as before
            u = rng.choice(known)
        spots = path + vals + ([frag] if frag else [])
        old = (list(u.path) + list(u.values) + ([u.fragment] if frag else [])) if u else None
        hit = rng.randrange(len(spots))
        v, i = [], None
        for j, s in enumerate(spots):
            v.append(old[j] if old and j != hit else s(rng, i if tied else None))
            i = sum(map(ord, v[-1]))
        n = model.U(tuple(v[:d]), keys, tuple(v[d:d + q]), v[-1] if frag else None)
        known.append(n)
        out.append(dress(rng, n))
    return [u for u in out if model.url(u) is not None]


def broad_set(rng, mcn):
    """URLs of one structure with 17 to 45 pieces in one level, some of them often, some rarely."""
    signs = [model.DIGITS, model.LOWER, model.UPPER]
    shape = rng.choice(([0], [1], [1], [2], [0, 1], [1, 0]))
    n = rng.choice((1, 2, 2, 3))
    names = set()
    k = rng.randint(17, 45)
    while len(names) < k:
        names.add(''.join(word(rng, signs[c], n, rng.choice((n, n + 2))) for c in shape))
    names = sorted(names)
    rng.shuffle(names)
    few = rng.choice((0, 0, 0.3, 0.8))
    tail = rng.choice(('%s/%s', '%s/%s/x', '%s/%s.html', '%s?id=%s', 'v/%s/p-%s', '%s#%s'))
    # what follows: of one kind, or of a kind for each piece
    # the broad level first or last
    last = rng.random() < 0.5
    wide = rng.choice((1, 3, 6)) + 2 * last
    kinds = [rng.choice((0, 0, 1, 2)) for _ in range(rng.choice((1, 1, 3)))]
    out = []
    for i, a in enumerate(names):
        c = 1 if rng.random() < few else rng.choice((mcn - 1, mcn, mcn, mcn + 1)) if mcn < 10 else 1
        for _ in range(max(c, 1)):
            b = word(rng, signs[kinds[i % len(kinds)]], 1, 1 + i % wide)
            out.append('http://h/' + tail % ((b, a) if last else (a, b)))
    rng.shuffle(out)
    return [u for u in out if model.url(u) is not None]


def url_set(rng, mcn=3, size=None, deep=False, big=False):
    """A list of URL texts, all of them regular."""
    size = size or rng.choice((4, 8, 12, 16, 24, 32))
    if big == 'huge':
        return huge_set(rng, mcn)
    if big:
        if rng.random() < 0.5:
            return broad_set(rng, mcn)
        size = rng.randint(150, 400)
    elif not deep and rng.random() < 0.4:
        return focus_set(rng, mcn, max(size, min(20, mcn * rng.choice((1, 2, 3)))))
    out = []
    ts = [Template(rng, mcn, deep and i == 0, not big) for i in range(rng.choice((1, 1, 2, 2, 3, 4)))]
    if not big and not deep and rng.random() < 0.01:
        # many structures
        ts += [Template(rng, mcn) for _ in range(rng.choice((20, 60, 130)))]
        out = [t(rng)[0] for t in ts]
        size += len(ts)
    while len(out) < size:
        t = rng.choice(ts)
        n = rng.choice((1, mcn - 1, mcn, mcn + 1, 2 * mcn, 3 * mcn))
        if big:
            n *= rng.choice((1, 5, 20))
        for _ in range(n):
            out.append(t(rng)[0])
        if rng.random() < 0.25:
            u = model.url(rng.choice(out))
            if u is not None:
                for _ in range(rng.choice((1, 1, 2, mcn))):
                    out.append(dress(rng, mutate(rng, u)))
    rng.shuffle(out)
    out = [u for u in out[:max(size, 1)] if model.url(u) is not None]
    return out


ILLEGAL = [' ', '`', 'é', '漢', '\x00', '\x7f', '\u2028', '\x01', '\U0001f600',
           # look like digits, letters or signs, to str.isdigit() and friends or after case folding
           '\u0663', '\u00b2', '\uff11', '\U0001d7d8', '\u2167', '\u00bd', 'É', '\uff21', '\uff41', 'ß', '\u0131',
           '\u017f', '\u212a', '\u01c5', 'ª', '\u0430', '\uff0f', '\u2044', '\uff1f', '\uff05', '\u2010', '\u2024',
           # white space and format characters that are not the ones urlparse drops
           '\x0b', '\x0c', '\x1f', '\x85', '\xa0', '\u200b', '\u3000', '\ufeff', '\ufffd', '\u0301', '\U000e0041']


def illegal(rng):
    """A character that no URL may contain outside the host."""
    if rng.random() < 0.75:
        return rng.choice(ILLEGAL)
    while True:
        n = rng.choice((rng.randint(0x80, 0x250), rng.randint(0x80, 0x3000), rng.randint(0x80, 0x10ffff)))
        if not 0xd800 <= n < 0xe000:
            return chr(n)


def bad_url(rng, base=None):
    """(url, category) that has to be rejected."""
    u = model.url(base) if base else None
    if u is None:
        u = Template(rng, 3)(rng)[1]
    for _ in range(50):
        cat = rng.choice(('path-char', 'key-char', 'value-char', 'frag-char', 'no-path',
                          'amp-lead', 'amp-double', 'amp-trail', 'slash', 'empty', 'pattern'))
        path, keys, values, frag = list(u.path), list(u.keys), list(u.values), u.fragment
        c = illegal(rng)

        def put(s):
            i = rng.randint(0, len(s))
            return s[:i] + c + s[i:]
        if cat == 'path-char':
            i = rng.randrange(len(path))
            path[i] = put(path[i])
            s = dress(rng, model.U(tuple(path), u.keys, u.values, frag))
        elif cat == 'key-char':
            if not keys or keys == ['']:
                keys, values = ['k='], ['1']
            i = rng.randrange(len(keys))
            k = keys[i]
            keys[i] = put(k[:-1]) + '=' if k.endswith('=') else put(k)
            s = dress(rng, model.U(u.path, tuple(keys), tuple(values), frag))
        elif cat == 'value-char':
            if not values:
                keys, values = ['k='], ['1']
            i = rng.randrange(len(values))
            if not (keys[i].endswith('=') or keys[i] == ''):
                continue
            values[i] = put(values[i])
            s = dress(rng, model.U(u.path, tuple(keys), tuple(values), frag))
        elif cat == 'frag-char':
            s = dress(rng, model.U(u.path, u.keys, u.values, put(frag or '')))
        elif cat == 'no-path':
            s = 'http://' + rng.choice(HOSTS) + rng.choice(('', '?a=1', '#x', '?'))
        elif cat.startswith('amp'):
            q = {'amp-lead': '&a=1', 'amp-double': 'a=1&&b=2', 'amp-trail': 'a=1&'}[cat]
            s = 'http://h/' + '/'.join(u.path) + '?' + q
        elif cat == 'slash':
            s = '/' + '/'.join(u.path)
        elif cat == 'empty':
            s = ''
        else:
            s = u.literal
        if cat in ('slash', 'empty', 'pattern') or model.url(s) is None:
            return s, cat
    return 'http://h/a b', 'path-char'


def bad_pattern(rng, good):
    """(text, category): not a URL pattern; has to be rejected, or harmless."""
    cat = rng.choice(('brace', 'bracket', 'num', 'rule', 'char', 'few', 'amp', 'url', 'empty'))
    s = good
    if cat == 'brace':
        s = s.rstrip('#') + 'a[0-9]{3'
    elif cat == 'bracket':
        s = s + '[0-9'
    elif cat == 'num':
        s = s + '[0-9]{x}'
    elif cat == 'rule':
        s = s + '[0-4]'
    elif cat == 'char':
        s = s + rng.choice(('-', '_', 'é', ' a', '.'))
    elif cat == 'few':
        s = s + '[0-9a-z]'
    elif cat == 'amp':
        s = '/a[\\?]a=1&&b=2'
    elif cat == 'url':
        p = model.pattern(good)
        s = rng.choice(('http://h/a/b', 'http://h' + good if p is not None and p.is_literal else 'http://h/a/c'))
    else:
        s = ''
    return s, cat


def rng_of(*key):
    from .core import mix
    return random.Random(mix(*key))
