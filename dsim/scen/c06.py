"""C06 matches are exactly the patterns that match on their own."""
from .common import *

RUNS = {'quick': 1600, 'thorough': 32000}
RULE = ('a run is a random history of pattern loads (repeats, new metadata, rejected ones) and matches on '
        'one matcher; every match is compared with the reference model (strict matching of each loaded '
        'pattern) and, for a sample, with matchers that hold one pattern only; non-trivial when some '
        'match reports at least two patterns')
REAL = REAL_ALL
STUB = STUBS
ASSUMPTIONS = ASSUME + ['the exact oracle is used for patterns spelled as clustering spells them; '
                        'hand-written ones are only checked against a matcher that holds them alone']
SHRINK = ['ops']


def odd_pattern(rng, text):
    """A hand-written variant of a pattern."""
    p = model.pattern(text)
    if p is None:
        return text
    toks = [u.text for piece in p.pieces for u in piece]
    if not toks:
        return text
    t = rng.choice(toks)
    x = rng.random()
    if t[0] == '[':
        body, close, tail = t[1:].rpartition(']')
        if x < 0.4:
            r = '[' + body + ']' + rng.choice(('', '+', '{2}', '{3}', '{9}', '{1}', '{03}', '{\u0663}', '{\uff12}', '{\u00b2}'))
            if tail[1:-1].isdigit() and rng.random() < 0.5:
                r = '[%s]{%s}' % (body, ''.join(chr(0x660 + int(c)) for c in tail[1:-1]))
        elif x < 0.7:
            r = '[' + rng.choice(('0-9', 'a-z', 'A-Z', '\\-', '_')) + body + ']' + tail
        else:
            r = t + t
    else:
        r = rng.choice(('[a-z]+', '[0-9]+', t + t, '[a-z]{%d}' % len(t), '[0-9a-z]+'))
    return text.replace(t, r, 1)


def plan(rng, tier):
    mcn = pick_mcn(rng)
    urls = gen.url_set(rng, mcn, rng.choice((3, 5, 8, 12)), deep=rng.random() < 0.03)
    if rng.random() < 0.005:
        urls = urls[:3] + gen.deep_urls(rng)[:2]
    us = [model.url(u) for u in urls]
    pats = []
    for u in us:
        for _ in range(rng.choice((1, 2, 4, 8))):
            pats.append(model.generalise_url(rng, u))
        if rng.random() < 0.4:
            pats.append(model.generalise_url(rng, gen.mutate(rng, u)))
    probes = urls + [gen.dress(rng, gen.mutate(rng, u), True) for u in us]
    for u in rng.sample(urls, min(len(urls), 4)):
        # with and without an empty part
        base, h, f = u.partition('#')
        probes.append(rng.choice((u + '#', base, base + '#', base + '?', base.partition('?')[0],
                                  base.partition('?')[0].rstrip('/') + rng.choice(('', '/', '/#', '/?', '/?#')))))
    probes = [p for p in probes if model.url(p) is not None]
    if us and rng.random() < 0.03:
        # very many patterns for one URL
        u = max(us, key=lambda x: len(x.pieces))
        pats += sorted({model.generalise_url(rng, u) for _ in range(rng.choice((60, 120, 200)))})
    odd = []
    if rng.random() < 0.4 and pats:
        odd = [odd_pattern(rng, rng.choice(pats)) for _ in range(rng.randint(1, 6))]
    ops = [['load', p, i] for i, p in enumerate(pats)]
    ops += [['load', rng.choice(pats), 1000 + i] for i in range(rng.choice((0, 0, 3)))] if pats else []
    ops += [['load', rng.choice(pats), None] for i in range(rng.choice((0, 0, 2)))] if pats else []
    ops += [['odd', p, 2000 + i] for i, p in enumerate(odd)]
    ops += [['match', rng.choice(probes)] for _ in range(rng.choice((0, 2, 5)))] if probes else []
    ops += [['junk', gen.bad_pattern(rng, rng.choice(pats))[0]] for _ in range(rng.choice((0, 0, 2)))] \
        if pats else []
    if rng.random() < 0.003:
        # a large rule base
        for u in gen.huge_set(rng, mcn):
            p = model.generalise_url(rng, model.url(u))
            pats.append(p)
            ops.append(['load', p, 10000 + len(pats)])
            if len(pats) > 1050 and len(set(pats)) > 1024:
                break
        probes = probes[:12]
    rng.shuffle(ops)
    ops += [['match', p] for p in probes]
    return {'ops': ops, 'nodes': [rng.getrandbits(32), rng.getrandbits(32)],
            'alone': rng.random() < 0.3}


def execute(plan, rec):
    with Env(plan['nodes'][0]):
        node = Node.of(plan['nodes'][0])
        loaded = {}
        odd = {}
        solo = {}

        def alone(p, u):
            m = solo.get(p)
            if m is None:
                m = solo[p] = node.PatternMatcher()
                m.load(p, meta=p)
            return len(m.match(u))

        with node:
            m = node.PatternMatcher()
            for op in plan['ops']:
                rec.sched(op[0])
                if op[0] in ('load', 'odd', 'junk'):
                    tgt = {'load': loaded, 'odd': odd}.get(op[0])
                    if op[0] == 'odd' and op[1] in loaded:
                        tgt = loaded
                    if op[0] == 'load' and op[1] in odd:
                        loaded[op[1]] = odd.pop(op[1])
                    try:
                        m.load(op[1], meta=op[2] if len(op) > 2 else 'junk')
                    except Exception as e:
                        if op[0] == 'load':
                            fail('load', 'pattern %s cannot be loaded: %r', op[1], e)
                        rec.fault('rejected-pattern')
                        continue
                    if op[0] == 'junk':
                        rec.probe('junk-accepted')
                        odd[op[1]] = 'junk'
                        continue
                    if op[1] in tgt:
                        rec.fault('repeated-load')
                    if op[2] is not None or op[1] not in tgt:
                        tgt[op[1]] = op[2]
                else:
                    u = op[1]
                    U = model.url(u)
                    got = sorted((repr(n.meta) for n in m.match(u)))
                    want = [repr(v) for p, v in loaded.items()
                            if model.strict_match(model.pattern(p), U)]
                    want += [repr(v) for p, v in odd.items() if alone(p, u)]
                    rec.ev('match', u, got)
                    if len(want) > 1:
                        rec.probe('nontrivial')
                    if got != sorted(want):
                        names = {repr(v): p for d in (loaded, odd) for p, v in d.items()}
                        fail('matches', '%s: matcher and model differ: %s', u,
                             diff([names.get(x, x) for x in want], [names.get(x, x) for x in got]))
                    for p, v in list(loaded.items()) + list(odd.items()):
                        if repr(v) in got and not model.regex_match(p, U) and repr(v) != 'None':
                            fail('regex', '%s reported for %s, which is not a full match', p, U.norm)
                    if plan['alone']:
                        for p, v in loaded.items():
                            k = alone(p, u)
                            w = 1 if model.strict_match(model.pattern(p), U) else 0
                            if k != w:
                                fail('alone', '%s alone reports %d results for %s instead of %d', p, k, u, w)
