#!/usr/bin/env python3
"""Writes MANIFEST.json: the properties main.rs knows are claimed."""
import json, re, subprocess
src = open('/verif/harness/src/main.rs').read()
claimed = set(re.findall(r'"(C\d\d)" =>', src))
T = {
 'C01': ('fuzzing: random, mutated and truncated byte streams x fragmentations x end conditions; panic/spin/fragmentation-independence oracle', 'Pure reader under a simulated source that counts polls after its end.'),
 'C02': ('grammar-based generation of valid requests and single-fault mutants; round-trip oracle against what was rendered', 'The oracle is the generator: what was rendered must be reported, what was broken must be refused.'),
 'C03': ('model-based histories of header additions (ordered multimap model) and respelled header names on the wire', 'The model is a Vec of pairs.'),
 'C04': ('generated bodies x read-size sequences x partial consumption x faults; invariant on stream position', 'Compares with the slice of the bytes sent.'),
 'C05': ('generated messages written to sinks with partial writes, interruptions and faults; independent reference parser, round trip', 'The reference parser is in harness/src/refhttp.rs. One known finding, see known-findings.txt.'),
 'C06': ('grammar-based generation of responses and single-fault mutants; round-trip oracle', 'As C02.'),
 'C07': ('exhaustive small ranges and generated strings against tables written from RFC 2616/7231', 'Tables are in harness/src/tables.rs.'),
 'C08': ('model-based: generated route sets in several registration orders and request paths, through a real server and directly; reference matcher', 'The reference matcher is a linear search over segments.'),
 'C09': ('generated request targets against a segment-stack model of normalisation, through a real server; idempotence', 'The model is a stack of segments.'),
 'C10': ('stateful generation of conversations over a real loopback server; reference model of the handler plan and of persistence', 'Real sockets; the scheduler is the machine\'s. Timing failures must repeat three times.'),
 'C11': ('generated histories of abuse (garbage, cuts, resets, panics, stalls, failed handshakes, descriptor exhaustion), then a health check of a real server', 'Real sockets; failures of the accept call come from a lowered descriptor limit.'),
 'C12': ('generated histories of occupying and freeing connections with gated handlers against a counting model', 'Capacity model: max(100, execution units).'),
 'C13': ('generated arrival and taking schedules against limits, over a simulated stream with its own clock and over real sockets', 'Real-time cases keep a wide margin around the limit.'),
 'C14': ('generated states of connections at shutdown, and histories of lifecycle calls against a state model', 'Deadlines are seconds where the code needs milliseconds.'),
 'C15': ('generated directory trees and request targets, direct, through a server and through wrustatic, with a canary outside the tree; reference lookup', 'The tree is made in a scratch directory; the handler only reads.'),
 'C16': ('generated histories of submissions, gates, panics and idle periods against a counting model of the pool', 'Uses the guarded re-export of the pool.'),
 'C17': ('generated call histories against scripted servers and a wruster server; pairing oracle by identifiers, reuse counted at the server', 'Scripted servers follow HTTP/1.1.'),
 'C18': ('model-based histories of insert, get and drain against a reference LRU map, and real-time expiry cases', 'Uses the guarded re-export of the client\'s idle pool.'),
 'C19': ('stateful generation of conversations over TLS against the same model as plain ones; generated unusable key material', 'The client side is rustls. Reading speed, buffers, record sizes are generated.'),
 'C20': ('generated ends of connections, with the process\'s open descriptors counted before and after; model-based histories of the tracked list', 'Counts /proc/self/fd of the process running only the server under test and the client.'),
 'C21': ('generated configuration files and requests against the wrusdummy program; reference route table', 'Runs the release build of the program.'),
 'C22': ('differential: generated requests and handlers, with and without generated nestings of the middleware; captured log', 'The logger is ours and captures every record.'),
 'C23': ('generated PEM files against a reference of their first sections', 'Sections are made by the generator, never by a PEM library.'),
 'C25': ('generated sizes and ways to send, receive and consume bodies, with a counting allocator and every byte compared with a generator', 'The memory of the clients in the process counts as well.'),
 'C26': ('generated command lines, key and certificate files and addresses against a reference of what must be served; the programs are run', 'Runs the release builds of the programs.'),
 'C27': ('generated histories of good and bad answers by scripted servers to threads sharing a client, model of what each request must give; real-time cases for the limits', 'Real sockets. The limits are the real ones, 60 s, so few cases of many simultaneous requests.'),
 'C24': ('generated crowds of simultaneous conversations over a real server; each compared with its own model', 'Real sockets; the scheduler chooses the interleaving within generated delays.'),
}
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
NA = {}
hook = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s'], capture_output=True, text=True).stdout
hooks = [l.split()[0] for l in hook.splitlines() if ' verif:' in l]
m = {
 'version': 1,
 'setup_cmd': './setup.sh',
 'hooks': {'guard': 'cfg(wruster_verif)', 'enable': 'RUSTFLAGS="--cfg wruster_verif" (build.inc)', 'source_commits': hooks},
 'checks': [], 'not_applicable': [],
 'notes': 'check.sh <id> runs a check, check.sh <id> <file> one replay file. known-findings.txt lists the defects found.',
}
for p in props:
    i = p['id']
    if i in claimed:
        t, n = T[i]
        m['checks'].append({'property': i, 'quick_cmd': f'./check.sh {i}', 'thorough_cmd': f'VERIF_TIER=thorough ./check.sh {i}',
          'evidence_file': f'evidence/{i}.json', 'technique': 'property-based testing: ' + t, 'level': 'exploration',
          'level_note': 'No violation among the generated cases counted in the evidence. ' + n})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'its check is still being built')})
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'claimed')
