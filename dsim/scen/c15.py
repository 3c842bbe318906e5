"""C15 formats and the combined tree agree."""
import json

from .common import *

RUNS = {'quick': 2500, 'thorough': 50000}
RULE = ('a run formats one clustering in every format, while iterating, after collecting, repeatedly and '
        'alternately (seeded schedule of record pulls), and as the combined tree; non-trivial when '
        'there are two or more clusters and one is generalised')
REAL = REAL_ALL
STUB = STUBS
ASSUMPTIONS = ASSUME
SHRINK = ['urls', 'pulls']
FORMATS = ('PATTERN', 'CLUSTER', 'INLINE', 'JSON')


def plan(rng, tier):
    p = base_plan(rng, tier)
    p['pulls'] = [rng.getrandbits(16) for _ in range(rng.choice((0, 20, 60)))]
    p['dup'] = rng.random() < 0.5
    # how many of four URLs come without metadata, as in the README's example
    p['bare'] = rng.choice((0, 0, 0, 1, 3, 4))
    return p


def execute(plan, rec):
    with Env(plan['nodes'][0]):
        node = Node.of(plan['nodes'][0])
        with node:
            pm = new_maker(node, plan['mcn'])
            owner = {}
            for u in plan['urls']:
                if mix('bare', u) % 4 < plan['bare']:
                    pm.load(u)
                    rec.probe('no-metadata')
                    continue
                pm.load(u, meta=u)
                owner[u] = model.url(u).key
                if plan['dup'] and mix('dup', u) % 3 == 0:
                    v = u.replace('://', '://dup.', 1)
                    pm.load(v, meta=v)
                    owner[v] = owner[u]
                    rec.fault('duplicate-delivery')
            # 1. while iterating
            live = []
            for meta, root in pm.make():
                live.append({f: sorted(node.pformat(f, meta, root)) for f in FORMATS})
                live[-1]['first'] = next(iter(node.pformat('CLUSTER', meta, root)))
            # 2. after collecting, pulled alternately
            held = list(pm.make())
            its, out = {}, {}
            for i, (meta, root) in enumerate(held):
                for f in FORMATS:
                    its[i, f] = iter(node.pformat(f, meta, root))
                    out[i, f] = []
            keys = sorted(its)
            for x in plan['pulls']:
                if not keys:
                    break
                k = keys[x % len(keys)]
                rec.sched(x % len(keys))
                r = next(its[k], None)
                if r is None:
                    keys.remove(k)
                else:
                    out[k].append(r)
                    rec.fault('interleaved-pull')
            for k in keys:
                out[k].extend(its[k])
            late = [{f: sorted(out[i, f]) for f in FORMATS} for i in range(len(held))]
            again = [{f: sorted(node.pformat(f.lower(), meta, root)) for f in FORMATS}
                     for meta, root in held]
            low = []
            for mk in pm.makers:
                for root in mk.make():
                    low.append({f: sorted(node.pformat(f, mk.url_meta, root)) for f in FORMATS})
            # 3. combined tree
            trees = []
            for meta, root in pm.make(combine=True):
                leaves = []
                for nodes in node.dump_tree(root):
                    leaves.append((tuple(str(n.value) for n in nodes[1:]), nodes[-1].count))
                    for up, dn in zip(nodes, nodes[1:]):
                        if up.count < dn.count:
                            fail('tree-count', 'a node of the combined tree counts less than its child')
                trees.append((meta, root.count, leaves, list(node.pformat('ETE', meta, root))))
        rec.ev('formats', sorted(map(repr, live)))
        def strip(l):
            return sorted(repr({f: x[f] for f in FORMATS}) for x in l)
        for name, l in (('collected and alternately pulled', late), ('repeated', again),
                        ('per maker', low)):
            if strip(l) != strip(live):
                fail('format-timing', 'records formatted while iterating and %s differ: %s', name,
                     diff(strip(live), strip(l)))
        cl = []
        # the number of distinct URLs of a cluster whose members have no metadata
        full = {}
        if plan['bare']:
            for pat, members, _ in reference(plan['urls'], plan['mcn']):
                full[pat] = len({model.url(m).key for m in members})
        for x in live:
            if len(x['PATTERN']) != 1:
                fail('pattern-record', 'PATTERN gave %d records', len(x['PATTERN']))
            pat = x['PATTERN'][0]
            if x['first'] != pat:
                fail('cluster-record', 'CLUSTER starts with %r, the pattern is %r', x['first'], pat)
            members = sorted(r[1:] for r in x['CLUSTER'] if r.startswith('\t'))
            if len(x['CLUSTER']) != len(members) + 1:
                fail('cluster-record', 'CLUSTER records are not one pattern and its members: %s',
                     short(x['CLUSTER']))
            if x['INLINE'] != sorted(pat + '\t' + m for m in members):
                fail('inline', 'INLINE and CLUSTER differ: %s',
                     diff(sorted(pat + '\t' + m for m in members), x['INLINE']))
            n = len({owner[m] for m in members})
            if plan['bare']:
                n = full.get(pat, n)
            js = [json.loads(r) for r in x['JSON']]
            if js != [{'ptn': pat, 'cnt': n}]:
                fail('json', 'JSON says %s, the cluster is %s with %d distinct URLs', js, pat, n)
            cl.append((pat, tuple(members), n))
        got = []
        for meta, total, leaves, ete in trees:
            if total != sum(c for _, c in leaves):
                fail('tree-total', 'the combined tree counts %d, its leaves %d', total,
                     sum(c for _, c in leaves))
            if len(ete) != 1:
                fail('ete', 'ETE gave %d records', len(ete))
            n, q = meta.path_depth, len(meta.query_keys)
            # every node of the drawing: query key, pattern and count
            shown = sorted((l.count('|', 0, len(l) - len(l.lstrip('|'))), l.lstrip('|').strip())
                           for l in ete[0].split('\n'))
            node_counts = {}
            for path, c in leaves:
                for d in range(len(path) + 1):
                    node_counts[path[:d]] = node_counts.get(path[:d], 0) + c
            for path, c in sorted(node_counts.items()):
                d = len(path)
                key = meta.query_keys[d - n - 1] if n < d <= n + q else ''
                text = '%s%s(%d)' % (key, path[-1] if path else '', c)
                sep = '' if d <= n else '[\\?]' if d == n + 1 and q else '&' if d <= n + q else '#'
                if (d, sep + text) in shown:
                    shown.remove((d, sep + text))
                else:
                    fail('ete-node', 'the ETE drawing does not show %s on level %d of %s', sep + text, d,
                         short(ete[0]))
            if shown:
                fail('ete-extra', 'the ETE drawing shows %s', shown)
            for path, c in leaves:
                if len(path) != meta.depth:
                    fail('tree-depth', 'combined tree path %s does not have %d levels', path, meta.depth)
                s = '/' + '/'.join(path[:n])
                if q:
                    s += '[\\?]' + '&'.join(k + v for k, v in zip(meta.query_keys, path[n:n + q]))
                if meta.has_fragment:
                    s += '#' + path[n + q]
                got.append((s, c))
                for v in path:
                    if v not in ete[0]:
                        fail('ete-text', 'ETE text does not show %s', v)
        want = sorted((p, n) for p, _, n in cl)
        if sorted(got) != want:
            fail('combined', 'the combined tree and the clusters differ: %s', diff(want, sorted(got)))
        if len(cl) > 1:
            nontrivial_clusters(rec, cl)
