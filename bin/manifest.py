#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]

SEQ = 'TLA+ container specification: TLC model checking, replay of its transitions, trace validation'
WORLD = 'TLA+ store and world specification: TLC model checking, replay of its transitions, trace validation'
PROOF = 'TLA+ recording specification: TLC model checking, replay of its transitions, trace validation'
CODEC = 'TLA+ type-directed encoding specification: TLC model checking, replay of its transitions, trace validation'
CLAIMED = {
    'C01': (SEQ, 'model_checking', 'Exhaustive for containers of a few elements in every kind, mode and limit, replayed transition by transition in the code; seeded long histories (hundreds of operations, lengths to 70000, limits to 2^63) validated against the same specification. SHA-256 of the JDK is the oracle.'),
    'C02': (SEQ, 'model_checking', 'Exhaustive within small lengths and two element values, seeded histories beyond; every result, length, read-back and error compared.'),
    'C03': (SEQ, 'model_checking', 'Exhaustive within small lengths for 12 element/value width pairs, seeded histories for 25 widths; every result, length, read-back and error compared.'),
    'C04': (SEQ, 'model_checking', 'Exhaustive for limits 0..4, seeded histories for limits to 2^63.'),
    'C05': (SEQ, 'model_checking', 'Every replayed transition re-opens its container from root or metadata; seeded histories close and re-open in all ways at any point. List::from_raw is a known finding.'),
    'C06': (WORLD, 'model_checking', 'Exhaustive for small stores shared by a container, a raw tree and a dangling or owned third handle; every live node compared after every transition in the code. Seeded histories of several handles validated.'),
    'C07': (WORLD, 'model_checking', 'Exhaustive for small stores, entries and counts compared exactly; seeded histories validated. Lists that grow or shrink may leave what the known finding list-garbage describes.'),
    'C08': (WORLD, 'model_checking', 'Exhaustive to depth 2 and small stores with all positions probed; seeded histories to depth 62.'),
    'C09': ('TLA+ specification of tree paths: TLC model checking, replay of its transitions, trace validation', 'model_checking', 'Exhaustive for all indices to depth 7 and pairs to depth 6 (thorough 10 and 7), seeded histories over all 63 levels.'),
    'C11': (PROOF, 'model_checking', 'Exhaustive for every sequence of two (thorough three) operations on every container kind at small lengths; seeded histories over several trees in one store replayed from their recorded proofs.'),
    'C12': (PROOF, 'model_checking', 'Exhaustive as C11, with every subset of small proofs read back; seeded histories with random partial proofs.'),
    'C13': ('TLA+ specification of compact proofs: TLC model checking, replay of its transitions, trace validation', 'model_checking', 'Exhaustive for all proofs of two (thorough three) entries over colliding values and all plain branches to depth 4 (6); seeded larger proofs.'),
    'C14': (CODEC, 'model_checking', 'About 130 Rust types, described to the specification by the harness; a family of boundary values of each, every encoder variant (by value, by reference, tree_root) compared with the root TLC computes; seeded random values.'),
    'C15': (CODEC, 'model_checking', 'As C14 in both constructs, also with a second value in the store before or after; seeded histories of values sharing one store.'),
    'C16': ('TLA+ store, world and encoding specifications: TLC model checking, replay of its transitions through every wrapper, trace validation', 'model_checking', 'Every short sequence of container, raw-tree and store operations run through seven wrappers and compared with the specification and with each other; every catalogue type encoded and decoded through each and on the discarding backend; seeded histories likewise.'),
    'C18': ('TLA+ encoding and container specifications bridged: TLC model checking, replay of its transitions, trace validation', 'model_checking', 'Encoded lists, vectors and packed ones of the catalogue element types opened as containers and containers decoded as values, exhaustive at small lengths and limits; seeded histories beyond.'),
    'C17': (CODEC, 'model_checking', 'For each of the types: every single lost node and every position overwritten by a family of hostile values; seeded multiple damage.'),
    'C19': ('TLA+ specification of partial views over the encoding specification: TLC model checking, replay of its transitions, trace validation', 'model_checking', 'Views of the catalogue types: every short sequence of reads, writes, pushes and a flush replayed on full and partial stores; seeded longer ones validated.'),
    'C20': ('TLA+ specification of every operation call by call: TLC model checking, replay with every backend call failing, trace validation', 'fault_enumeration', 'Every operation of every container kind and of raw trees at small lengths, direct, through the error-stripping wrapper and under recording, with each backend call failing, again while repeated, then repeated undisturbed; every catalogue type encoded and decoded likewise; seeded histories with failing calls validated.'),
    'C21': ('TLA+ specification of partial views with failing flushes: TLC model checking, replay with every backend call failing, trace validation', 'fault_enumeration', 'Every short history of updates and pushes with one or two failing flushes or reads in it, each at every backend call; seeded longer ones validated.'),
    'C22': ('TLA+ specification of the wire formats: TLC model checking, replay of its transitions, trace validation', 'model_checking', 'For 20 types: a family of values within and beyond their limits, every single change of their encodings out of a family, and all byte strings to length 3 (thorough 5) over ten bytes, written and read by the code; seeded values with several changes validated.'),
    'C23': ('TLA+ specification of containers over incomplete stores: TLC model checking, replay of its transitions, trace validation', 'model_checking', 'Containers of every kind at small lengths with each node missing (thorough: each pair), with only one way present, or with each position overwritten by a family of values, opened and taken through every two (three) operations in the code; seeded larger ones validated. Writes that do not find their way are not judged.'),
    'C24': ('TLA+ specification of partial views over incomplete stores: TLC model checking, replay of its transitions, trace validation', 'model_checking', 'Views of values of the catalogue types with each node missing or only one way present, then every short sequence of reads, updates, pushes, flushes that find their way and nodes arriving; with each position overwritten by a family of numbers and values, everything read; seeded larger ones validated. Flushes that do not find their way are not judged.'),
    'C10': (WORLD, 'model_checking', 'Exhaustive for store operations and raw trees over a few colliding values; seeded histories validated, every value ever seen looked up after every step.'),
}
out = {
    'version': 1,
    'setup_cmd': 'bash bin/setup.sh',
    'checks': [], 'not_applicable': [],
    'notes': 'Specification language: TLA+ (TLC), see DESIGN.md. No hooks are needed in /repo.',
}
for p in props:
    i = p['id']
    if i in CLAIMED:
        t, lv, note = CLAIMED[i]
        cmd = 'python3 -B bin/check.py %s' % i
        out['checks'].append({'property': i, 'quick_cmd': cmd, 'thorough_cmd': 'VERIF_TIER=thorough ' + cmd,
                              'technique': t, 'level': lv, 'level_note': note})
    else:
        out['not_applicable'].append({'property': i, 'reason': 'not built yet'})
json.dump(out, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
