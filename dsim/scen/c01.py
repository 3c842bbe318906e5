"""C01 conservation of URLs under arbitrary delivery histories."""
from .common import *

RUNS = {'quick': 4000, 'thorough': 80000}
RULE = ('a run is a history of URL deliveries (re-deliveries, reordering, corrupted deliveries) '
        'into one node followed by clustering; non-trivial when at least one cluster is generalised')
REAL = REAL_ALL
STUB = STUBS
ASSUMPTIONS = ASSUME
SHRINK = ['ops']


def plan(rng, tier):
    p = base_plan(rng, tier, huge_p=0.004)
    ops = []
    urls = p.pop('urls')
    if rng.random() < 0.004:
        urls = urls[:6] + gen.deep_urls(rng)
    mode = rng.choice(('url', 'id', 'mixed', 'sparse', 'odd'))
    n = 0
    for u in urls:
        for k in range(rng.choice((1, 1, 1, 2, 3))):
            x = u
            if k and rng.random() < 0.5:
                x = gen.dress(rng, model.url(u), True)
            n += 1
            m = {'url': x, 'id': 'm%d' % n}.get(mode)
            if m is None:
                m = 'm%d' % n if mode == 'mixed' and rng.random() < .5 else x
                if mode == 'sparse' and rng.random() < 0.4:
                    m = None
            if mode == 'odd':
                # any hashable object may be metadata; CLUSTER output is its text
                m = rng.choice((0, '', n - 1, -n, ' ', 'm%d' % n, n + .5, x))
            ops.append(['load', x, m])
    for _ in range(rng.choice((0, 0, 1, 3))):
        b, cat = gen.bad_url(rng, rng.choice(urls) if urls else None)
        ops.append(['bad', b, cat])
    rng.shuffle(ops)
    p['ops'] = ops
    p['style'] = rng.randrange(3)
    return p


def execute(plan, rec):
    with Env(plan['nodes'][0]):
        node = Node.of(plan['nodes'][0])
        seen = {}
        with node:
            pm = new_maker(node, plan['mcn'])
            for op in plan['ops']:
                if op[0] == 'bad':
                    rec.fault('corrupt-delivery')
                    try:
                        pm.load(op[1], meta='BAD ' + op[1])
                    except Exception:
                        continue
                    rec.probe('bad-accepted')
                    return      # C12 decides this
                _, u, m = op
                key = model.url(u).key
                _, is_new = pm.load(u, meta=m)
                if bool(is_new) != (key not in seen):
                    fail('is-new', 'load(%r) said is_new=%r, %s before', u, is_new,
                         'loaded' if key in seen else 'never loaded')
                if key in seen:
                    rec.fault('duplicate-delivery')
                seen.setdefault(key, set())
                if m is not None:
                    seen[key].add(m)
            cl = clusters(node, pm, plan['style'])
            leaves = []
            for meta, root in pm.make():
                for nodes in node.dump_tree(root):
                    leaves.append(sorted(nodes[-1].meta or (), key=repr))
        rec.ev('clusters', cl)
        rec.sched(len(seen), [c for _, _, c in cl])
        want = sorted(str(m) for ms in seen.values() for m in ms)
        got = sorted(m for _, ms, _ in cl for m in ms)
        if got != want:
            fail('conservation', 'loaded metadata and reported metadata differ: %s', diff(want, got))
        leaves = sorted(leaves, key=repr)
        per_url = sorted((sorted(ms, key=repr) for ms in seen.values()), key=repr)
        if leaves != per_url:
            fail('leaf-meta', 'metadata per URL differ: %s', diff(per_url, leaves))
        owner = {}
        for k, ms in seen.items():
            for m in ms:
                owner.setdefault(str(m), []).append(k)
        total = 0
        for pat, ms, count in cl:
            total += count
            if any(len(owner[m]) > 1 for m in ms):
                continue        # metadata shared by several URLs
            keys = {owner[m][0] for m in ms}
            known = all(seen[k] for k in seen)
            if known and len(keys) != count or len(keys) > count:
                fail('count', 'cluster %s has %d distinct URLs but count %r: %s',
                     pat, len(keys), count, short(ms))
        if total != len(seen):
            fail('count-total', 'counts add up to %d, %d distinct URLs were loaded', total, len(seen))
        where = {}
        for i, (pat, ms, count) in enumerate(cl):
            for m in ms:
                if len(owner[m]) == 1 and where.setdefault(owner[m][0], i) != i:
                    fail('split-url', 'metadata of one URL is in two clusters: %r', m)
        nontrivial_clusters(rec, cl)
