"""C12 rejected input leaves no trace; illegal URLs are always rejected."""
from .common import *

RUNS = {'quick': 2500, 'thorough': 50000}
RULE = ('a run mixes rejected URLs (maker) and rejected patterns and URLs (matcher) into a history and '
        'compares it with the same history without them; non-trivial when something was rejected and '
        'a generalised cluster or a match was compared')
REAL = REAL_ALL
STUB = STUBS
ASSUMPTIONS = ASSUME
SHRINK = ['ops']


class Accepted(Exception):
    pass


def plan(rng, tier):
    p = base_plan(rng, tier, size=rng.choice((4, 8, 12, 16)))
    urls = p.pop('urls')
    ops = [['url', u] for u in urls]
    us = [model.url(u) for u in urls]
    for _ in range(rng.choice((1, 2, 5, 10))):
        b, cat = gen.bad_url(rng, rng.choice(urls) if urls else None)
        ops.append(['badurl', b, cat])
    if urls and rng.random() < 0.4:
        for _ in range(rng.choice((1, 2, 4))):
            # metadata that cannot be put into the set of a node, with a URL that is fine:
            # loaded already, of a known structure, or of a structure of its own
            u = rng.choice(urls)
            ops.append(['badmeta', rng.choice((u, gen.dress(rng, gen.mutate(rng, model.url(u))), 'http://h/new/1/le?v=%d' % rng.randint(0, 9))),
                        rng.choice(('list', 'dict', 'set', 'bytearray'))])
    for u in us[:6]:
        ops.append(['pat', model.generalise_url(rng, u)])
        if rng.random() < 0.7:
            b, cat = gen.bad_pattern(rng, rng.choice((u.literal, model.generalise_url(rng, u))))
            ops.append(['badpat', b, cat])
    rng.shuffle(ops)
    p['ops'] = ops
    p['probe'] = [gen.dress(rng, gen.mutate(rng, u)) for u in us[:4]]
    p['make_between'] = rng.random() < 0.3
    return p


def execute(plan, rec):
    with Env(plan['nodes'][0]):
        accepted_pats = []
        rejected = 0

        def history(node, with_bad):
            nonlocal rejected
            pm = new_maker(node, plan['mcn'])
            m = node.PatternMatcher()
            new = []
            for k, op in enumerate(plan['ops']):
                if op[0] == 'url':
                    new.append(pm.load(op[1], meta=op[1])[1])
                elif op[0] == 'pat':
                    new.append(m.load(op[1], meta=op[1])[1])
                elif op[0] == 'badurl' and with_bad:
                    rec.fault('bad-url:' + op[2])
                    try:
                        pm.load(op[1], meta='BAD')
                    except Exception as e:
                        rec.ev('rejected', op[1], type(e).__name__)
                        rejected += 1
                    else:
                        fail('accepted', 'a URL with %s was accepted: %r', op[2], op[1])
                    if op[2] not in ('slash', 'pattern'):
                        try:
                            r = m.match(op[1])
                        except Exception:
                            pass
                        else:
                            fail('matched', 'match() took a URL with %s: %r gives %r', op[2], op[1], r)
                        try:
                            d = node.fuzzy_digest(op[1])
                        except Exception:
                            pass
                        else:
                            fail('digested', 'fuzzy_digest() took a URL with %s: %r', op[2], op[1])
                elif op[0] == 'badmeta' and with_bad:
                    rec.fault('bad-meta:' + op[2])
                    try:
                        pm.load(op[1], meta={'list': [1], 'dict': {1: 2}, 'set': {3},
                                             'bytearray': bytearray(b'm')}[op[2]])
                    except Exception as e:
                        rec.ev('rejected', op[1], type(e).__name__)
                        rejected += 1
                    else:
                        raise Accepted
                elif op[0] == 'badpat':
                    if with_bad:
                        rec.fault('bad-pattern:' + op[2])
                        try:
                            m.load(op[1], meta=op[1])
                        except Exception as e:
                            rec.ev('rejected', op[1], type(e).__name__)
                            rejected += 1
                        else:
                            accepted_pats.append(k)
                            rec.probe('bad-pattern-accepted')
                    elif k in accepted_pats:
                        m.load(op[1], meta=op[1])
                if plan['make_between'] and k % (7 + len(plan['ops']) // 10) == 3:
                    for meta, root in pm.make():
                        break
            cl = clusters(node, pm)
            probes = [op[1] for op in plan['ops'] if op[0] == 'url'] + plan['probe']
            ms = [(u, [n.meta for n in sorted(m.match(u), reverse=True)]) for u in probes]
            trees = sorted((root.count, len(list(node.dump_tree(root)))) for _, root in pm.make(combine=True))
            return cl, ms, new, trees, len(list(pm.makers))

        with Node.of(plan['nodes'][0]) as node:
            try:
                a = history(node, True)
            except Accepted:
                # such metadata is supported after all: nothing was rejected
                rec.probe('bad-meta-accepted')
                return
        with Node.of(plan['nodes'][1]) as node:
            b = history(node, False)
        rec.ev('result', a)
        if a[0] != b[0]:
            fail('maker-trace', 'rejected URLs changed the clusters: %s', diff(b[0], a[0]))
        if a[1] != b[1]:
            fail('matcher-trace', 'rejected input changed the matches: %s', diff(b[1], a[1]))
        if a[2] != b[2]:
            fail('new-trace', 'rejected input changed what load() says of later input')
        if a[3:] != b[3:]:
            fail('tree-trace', 'rejected URLs changed the makers or combined trees: %s / %s', a[3:], b[3:])
        if rejected:
            nontrivial_clusters(rec, a[0])
