"""Writes MANIFEST.json (run by hand after changing the list of checks)."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 'C01': 'seeded delivery histories (reorder, re-delivery, corrupt deliveries) against an independent model of URL identity',
 'C02': 'the same URL set in nodes with different arrival order, duplicates, hash salt/collisions and set iteration order',
 'C03': 'discrete-event cluster with message loss/dup/delay/reorder, partitions, stalls, crash+restart with torn logs; refinement against one process; bounded liveness after healing',
 'C04': 'patterns shipped to another node, reordered and mixed with foreign and junk patterns; reference matcher as oracle',
 'C05': 'seeded histories of interleaved, abandoned and resumed iterations and loads against fresh nodes',
 'C06': 'seeded histories of pattern loads/re-loads/matches against an executable reference matcher and each pattern alone',
 'C07': 'several nodes with different load orders; order checked against a reference generality relation',
 'C08': 'the real CLI on simulated stdin/files/stdout with short, interrupted, failing reads and writes; reference output',
 'C09': 'the real CLI on simulated I/O with faults, locales and configurations; reference clustering',
 'C10': 'the real CLI under simulated clocks, log levels, stderr failures and memory probes; same stdout and status',
 'C11': 'real threads under a seeded preemptive scheduler (line and bytecode granularity); linearizable against sequential results',
 'C12': 'rejected inputs injected at seeded points of histories; compared with histories without them',
 'C13': 'pattern files damaged by seeded storage faults, read by the real CLI through simulated I/O',
 'C14': 'digests compared across nodes with different hash salts, set orders, histories; equivalence relation of the model',
 'C15': 'seeded interleaving of lazily pulled formatters against each other and against the combined tree',
 'C16': 'asynchronous exceptions injected at seeded lines of repository code, then full comparison with a fresh node',
 'C17': 'heavy re-delivery and abandoned iterations; distinct members counted by the model',
 'C18': 'every cluster re-clustered alone in other nodes and orders',
 'C22': 'the real CLI struck by interrupts, termination requests and allocation failures at seeded lines of repository code',
 'C23': 'pattern-make killed at seeded bytes and lines, restarted, its files then read by pattern-match; reference matcher',
 'C24': 'seeded sequences of command calls, failures included, in one process against each call in its own process',
 'C25': 'seeded delivery histories of families of alike URLs, observed at seeded points around the threshold; exact expected clusters',
}
TECH = 'deterministic simulation with fault injection: seeded search over histories, schedules and faults'
NA = {
 'C19': 'a pure function of one string: no schedule, fault, history or second party for a simulator to control (its consequences are part of the models of C01, C12 and C14)',
 'C20': 'a judgement of quality with no crisp oracle; the crisp part (enough alike URLs become one cluster, at the right moment of a history) is C25',
 'C21': 'real time and real memory: the simulator replaces the clock, so it cannot measure them',
}
m = {'version': 1, 'setup_cmd': 'true',
     'checks': [{'property': p, 'quick_cmd': './check %s quick' % p, 'thorough_cmd': './check %s thorough' % p,
                 'technique': TECH, 'level': 'exploration', 'level_note': NOTE[p] + '; sampled, not exhaustive'}
                for p in sorted(NOTE)],
     'not_applicable': [{'property': p, 'reason': r} for p, r in sorted(NA.items())]}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
