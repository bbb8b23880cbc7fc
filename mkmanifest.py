#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties below."""
import json
LEVEL_NOTE = {}
TECH = {
 'C01': ('delivery oracle over recorded send/deliver events; real nodes on loopback, hand-made transfers, fault-injecting UDP proxy',
         'Held on the messages, splits and fault patterns this run produced; loss-free verdicts trust the kernel drop counters.'),
 'C02': ('verdict per hostile datagram (forged, unsigned, tampered, re-targeted) sent by an independent protocol peer to live nodes, barriers by honest pings',
         'Held on the mutations and node configurations this run produced.'),
 'C04': ('every packet captured from live nodes decoded by an independent implementation of the packet format, and the reverse; bit flips checked to be dropped',
         'Held on the packets captured and produced in this run.'),
 'C03': ('attribution oracle over recorded events of multi-identity nodes talking to several peers at once, peer removals in between',
         'Held on the identity pairs, orders and removals this run produced.'),
 'C06': ('query ledger: every query of live nodes matched against the answers its peer produced (late, repeated, swapped and missing ones), pending-query counter watched',
         'Held on the answer schedules this run produced.'),
 'C07': ('accept-at-most-once ledger over replayed, reordered and concurrent packets, against a reference window, on live nodes',
         'Held on the replay schedules this run produced.'),
 'C08': ('restart and reinit-date scenarios with an independent peer and a virtual clock, delivery verdict per packet',
         'Held on the restarts and dates this run produced.'),
 'C09': ('channel state watched through metrics, packet captures and deliveries across creation, replacement, loss and removal',
         'Held on the channel histories this run produced.'),
 'C10': ('peer-table oracle over public calls and crafted address lists; packet destinations captured',
         'Held on the calls and address lists this run produced.'),
 'C11': ('model-based runtime check of operation sequences, concurrent observers and hang detection on shared sets',
         'Held on the operation sequences and interleavings this run produced.'),
 'C12': ('model-based runtime check of keystore operation sequences',
         'Held on the operation sequences this run produced.'),
 'C13': ('event log of scripted subscribers (their decisions are written into the messages) checked against the expected prefix of subscribers; start races, packets before start and after shutdown',
         'Held on the decisions, transports and life-cycle races this run produced.'),
 'C14': ('model-based oracle over store requests of every kind (forged, stale, malformed, merged) and the values a live node then returns, on a virtual clock',
         'Held on the stores and expiry times this run produced.'),
 'C15': ('every value, address or member returned by lookups of a live node checked against what its scripted (mostly forging) peers hold',
         'Held on the forgeries and answer orders this run produced.'),
 'C16': ('answers of live nodes checked against an independent routing-table model; penalty model stepped along series of answered and unanswered requests',
         'Held on the tables, keys and request series this run produced.'),
 'C17': ('stores and lookups in small live networks against a reachability model; silent and lying peers with a time bound on every call',
         'Held on the topologies and peer behaviours this run produced.'),
 'C18': ('exact comparison of RLDP payloads between two nodes over clean, lossy, repeating and reordering links, and against an independent RLDP implementation with scripted losses',
         'Held on the sizes, payloads and links this run produced.'),
 'C19': ('scripted RLDP peers with wrong, swapped, repeated and oversized transfers; per-transfer handler counts, delivered sizes against the limits, and a gauge of queries in flight seen by the asked peer',
         'Held on the transfers, sizes and bursts this run produced.'),
 'C20': ('hostile RLDP sequences against a live node with panic, hang and liveness monitors, and the number of transfer entries followed to zero after every kind of end',
         'Held on the sequences and ends this run produced.'),
 'C21': ('broadcasts made by the node or by independent originators, whole and FEC, through lossy, duplicating and reordering paths, every delivery compared with a log of what was signed, plus mutated ones that must leave no trace',
         'Held on the sizes, mutations, losses and orders this run produced.'),
 'C22': ('delivery logs of meshes of nodes and packet logs of independent neighbours counted per broadcast and per part under concurrent, repeated and late copies',
         'Held on the topologies and copy patterns this run produced.'),
 'C23': ('forged parts of ten kinds interleaved with genuine ones; delivery from the genuine parts, relayed packets, panics and memory are observed',
         'Held on the forgeries and positions this run produced.'),
 'C24': ('member records genuine and mutated offered on every way in, histories of removals with members that log all they get, several overlays on one node with crossed traffic',
         'Held on the records, histories and crossings this run produced.'),
 'C25': ('histories of receptions, waits and cancellations over one queue, driven step by step (polls by hand) and by concurrent cancelling waiters; every reception has to be returned exactly once; processor time of idle nodes is read',
         'Held on the histories this run produced.'),
 'C26': ('every message type with generated fields written by the crate and compared with an independent encoder, parsed back and written again; distorted bytes offered to every parser with a panic monitor and a stability oracle',
         'Held on the values and distortions this run produced.'),
 'C27': ('AddressSanitizer and ThreadSanitizer builds of the monitors and of the code under test, run on their hostile and concurrent workloads, and Miri interpreting whole nodes over in-process datagrams',
         'Held on the executions of this run; what the tools do not see (races of code not run by two threads here, C code of zstd) is not covered.'),
 'C28': ('event logs of overlay subscribers and of scripted peers compared with every query, broadcast target list and exchange issued, over several overlays and built stacks at once; signed entries compared with an independent encoding',
         'Held on the queries, targets, filters and stacks this run produced.'),
 'C29': ('scripted peers here, next door and elsewhere compare every field of every packet received with the configuration, the (movable) wall clock and their own record; counters of the node compared with what was done to it',
         'Held on the option sets, packets and histories this run produced.'),
 'C05': ('live node under hostile traffic with panic, hang, processor-time and state-size monitors and honest traffic as liveness probe',
         'Held on the hostile traffic this run produced.'),
}
props=[json.loads(l)['id'] for l in open('properties.jsonl')]
NA = {}
import subprocess
hook = subprocess.run(['git','-C','/repo','log','--format=%H','--grep=^Hook:'],capture_output=True,text=True).stdout.split()
m = dict(version=1, setup_cmd='bash setup.sh', hooks=dict(guard='--cfg evmon_net', enable='RUSTFLAGS="--cfg evmon_net" (set by c27.py for the Miri builds only)', source_commits=hook), checks=[], not_applicable=[])
for p in props:
    if p in TECH:
        t,n = TECH[p]
        m['checks'].append(dict(property=p, quick_cmd=f'bash check.sh {p}', thorough_cmd=f'bash check.sh {p} thorough',
            technique='runtime monitoring: '+t, level='exploration', level_note=n))
    else:
        m['not_applicable'].append(dict(property=p, reason=NA.get(p,'check under construction')))
json.dump(m, open('MANIFEST.json','w'), indent=1)
