"""What each check runs."""
import __main__ as c

Model, Traces, Probe, Sub = c.Model, c.Traces, c.Probe, c.Sub

SEQ_INV = ['RootCanonical', 'ReadsBack', 'Stored', 'NoGarbage']


def seq_model(kinds, limits, widths, maxlen, pmaxlen, fields, thorough):
    return Model('MCSeq', {'Kinds': kinds, 'Limits': Sub(limits), 'PackedWidths': Sub(widths),
                           'MaxLen': maxlen, 'PMaxLen': pmaxlen},
                 SEQ_INV, replay=('seq', 'replay:' + fields), view='View', thorough=thorough)


PLAIN, PACKED, BOTH = '{"vec", "list"}', '{"pvec", "plist"}', '{"vec", "list", "pvec", "plist"}'


def world(kinds, groups, length, depth, store, show, invs=(), modes='{"inherited"}', thorough=None, garbage=99):
    return Model('MCWorld', {'Kinds': kinds, 'Modes': modes, 'Groups': groups, 'MaxLen': length, 'MaxDepth': depth,
                             'MaxStore': store, 'MaxGarbage': garbage, 'Show': '{"%s"}' % show},
                 ['Protected', 'NoGarbage', 'Told'] + list(invs), replay=('world', 'replay:' + show), extra=['PROPERTY Kept'], thorough=thorough)


def proof(kinds, lens, ops, wide, prop, thorough=None, modes='{"inherited"}', twin='FALSE'):
    return Model('MCProof', {'Kinds': kinds, 'Modes': modes, 'Lens': lens, 'Ops': ops, 'Wide': wide, 'Twin': twin},
                 ['Sufficient', 'Genuine', 'OnPath', 'Honest'], replay=('proof', 'replay:' + prop), thorough=thorough)


def codec(prop, seeds, partners=0, damage='{}', mode='inherited', thorough=None):
    return Model('MCCodec', {'Seeds': seeds, 'Partners': partners, 'Damage': damage, 'Rich': 'FALSE', 'Mode': '"%s"' % mode},
                 ['SameRoot', 'RoundTrip', 'NoDeception', 'Told'], replay=('codec', 'replay:' + prop), feed=('codec', 'types', 'TYPES'), thorough=thorough)


def fault(kinds, lens, share, ops, faults, tell=0, limits='SomeLimits', widths='{3, 12}', modes='{"inherited"}', replayed=True, thorough=None):
    return Model('MCFault', {'Kinds': kinds, 'Modes': modes, 'Lens': lens, 'Limits': Sub(limits), 'EWs': widths, 'Share': share,
                             'Ops': ops, 'Faults': faults, 'Tell': tell}, ['Complete', 'AsBefore'], view='View',
                 replay=('fault', 'replay') if replayed else None, thorough=thorough)


def sparse(kinds, lens, ops, lost, widths='{12, 32}', limits='SomeLimits', modes='{"inherited"}', twin='FALSE', thorough=None):
    return Model('MCSparse', {'Kinds': kinds, 'Modes': modes, 'EWs': widths, 'Limits': Sub(limits), 'Lens': lens, 'Ops': ops, 'Lost': lost, 'Twin': twin},
                 ['Honest', 'Answers', 'Agree', 'Told'], replay=('sparse', 'replay'), thorough=thorough)


def partial(seeds, ops, mode='inherited', faults=0, few=99, most=99, views=1, thorough=None, prop=''):
    return Model('MCPartial', {'Near': 'TRUE' if prop == 'C12' else 'FALSE', 'Few': few, 'Large': most, 'Views': views, 'Seeds': seeds, 'Ops': ops, 'Mode': '"%s"' % mode, 'Faults': faults}, ['Positioned', 'Idle', 'Mixes', 'Lossless'],
                 replay=('partial', 'replay:' + prop), feed=('partial', 'types', 'TYPES'), thorough=thorough)


def parts(seeds, ops, mode='inherited', few=3, large=8, lost=1, put='FALSE', thorough=None):
    return Model('MCParts', {'Seeds': seeds, 'Ops': ops, 'Mode': '"%s"' % mode, 'Few': few, 'Large': large, 'Lost': lost, 'Put': put}, ['Honest', 'Suffices', 'Decodes', 'Kept', 'Wrote', 'Told'],
                 replay=('partial', 'replay:C24'), feed=('partial', 'types', 'TYPES'), thorough=thorough)


op = lambda *names: (lambda e: e.get('op') in names)
yes = lambda e: True


def plan(prop, thorough):
    return PLANS[prop]()


def drop_root(e):
    """The store without the new root."""
    new = [r for r in e['store'] if r[0] != e.get('root') or r[2] == -1]
    return new if len(new) < len(e['store']) else None


def count_root(e):
    """The root counted once too often."""
    return [[r[0], r[1], r[2] + 1] if r[0] == e['root'] else r for r in e['store']]


def other_value(e):
    """Another value read from part of a proof."""
    k = [i for i, q in enumerate(e['partial']) if q[2] not in ('none', 'error')]
    if not k:
        return None
    q = e['partial'][k[0]]
    return e['partial'][:k[0]] + [[q[0], q[1], ('0' if q[2][0] != '0' else '1') + q[2][1:]]] + e['partial'][k[0] + 1:]


PLANS = {
    'C01': lambda: [
        seq_model(BOTH, 'FewLimits', 'SmallWidths', 5, 3, 'root', {'MaxLen': 8, 'PMaxLen': 6}),
        Traces('seq', 'C01', 'TraceSeq', canary=[(op('push', 'set', 'pop'), 'root')]),
    ],
    'C02': lambda: [
        seq_model(PLAIN, 'FewLimits', 'NoWidths', 6, 0, 'res,out,elems,over', {'MaxLen': 9, 'Limits': Sub('PlainLimits')}),
        Traces('seq', 'C02', 'TraceSeq', canary=[(op('get'), 'out'), (op('dump'), 'elems'), (op('push'), 'len'), (op('get'), 'res')]),
    ],
    'C03': lambda: [
        seq_model(PACKED, 'FewLimits', 'SmallWidths', 0, 4, 'res,out,elems,over', {'PMaxLen': 7}),
        seq_model(PACKED, 'FewLimits', 'MoreWidths', 0, 3, 'res,out,elems,over', {'PMaxLen': 6}),
        Traces('seq', 'C03', 'TraceSeq', canary=[(op('pop'), 'out'), (op('dump'), 'elems'), (op('get'), 'res')]),
    ],
    'C04': lambda: [
        seq_model(BOTH, 'AllLimits', 'SmallWidths', 4, 4, 'res,out,root,elems,over', {'MaxLen': 6, 'PMaxLen': 6}),
        Traces('seq', 'C04', 'TraceSeq', canary=[(op('push'), 'res'), (op('create'), 'res'), (op('push'), 'root')]),
    ],
    'C05': lambda: [
        seq_model(BOTH, 'FewLimits', 'SmallWidths', 4, 3, 'res,out,root,elems,over', {'MaxLen': 7, 'PMaxLen': 6}),
        Traces('seq', 'C05', 'TraceSeq', canary=[(op('reopen'), 'root'), (op('missing'), 'res'), (op('dump'), 'elems')]),
        Probe('seq', 'probe:D10', 'list-from-raw'),
    ],
    'C06': lambda: [
        world('{"vec"}', '{"seq", "raw"}', 2, 1, 5, 'need', thorough={'MaxStore': 6, 'Modes': '{"inherited", "unit"}'}),
        world('{"vec", "list"}', '{"seq", "fork", "adopt"}', 2, 1, 4, 'need', garbage=2, thorough={'MaxLen': 3, 'MaxStore': 5}),
        world('{"raw"}', '{"raw", "fork", "adopt"}', 0, 1, 4, 'need', garbage=1, thorough={'MaxStore': 5}),
        Traces('world', 'C06', 'TraceWorld', canary=[(lambda e: e['op'] == 'create' and e['res'] == 'ok' and drop_root(e) is not None, 'store', drop_root)]),
    ],
    'C07': lambda: [
        world('{"vec"}', '{"seq", "raw"}', 2, 1, 5, 'store', thorough={'MaxStore': 6, 'Modes': '{"inherited", "unit"}'}),
        world('{"vec", "pvec"}', '{"seq", "adopt"}', 2, 1, 5, 'store', modes='{"inherited"}', thorough={'MaxLen': 3, 'MaxStore': 6, 'Modes': '{"inherited", "unit"}'}),
        world('{"raw"}', '{"raw", "adopt"}', 0, 1, 4, 'store', thorough={'MaxStore': 5}),
        Traces('world', 'C07', 'TraceWorld', canary=[
            (lambda e: e['op'] == 'create' and e['h'] == 1 and drop_root(e) is not None, 'store', count_root),
            (op('drop'), 'store', lambda e: e['store'] + [['11' * (len(e['store'][0][0]) // 2), [], 1]])]),
        Probe('world', 'probe:garbage', 'list-garbage'),
    ],
    'C08': lambda: [
        world('{"raw"}', '{"raw"}', 0, 2, 6, 'probe', invs=['Frame'], thorough={'MaxDepth': 3, 'MaxStore': 7}),
        world('{"raw"}', '{"raw", "fork"}', 0, 1, 4, 'probe', invs=['Frame'], garbage=1, thorough={'MaxStore': 5}),
        Traces('world', 'C08', 'TraceWorld', canary=[(op('rset'), 'root'), (op('rset'), 'probe'), (op('rget'), 'out')]),
    ],
    'C09': lambda: [
        Model('MCIndex', {'Depth': 7, 'PairDepth': 6}, ['Numbers', 'Laws'], replay=('index', 'replay'), thorough={'Depth': 10, 'PairDepth': 7}),
        Traces('index', 'C09', 'TraceIndex', canary=[(yes, 'r'), (op('below', 'above'), 'r'), (op('sub'), 'r')]),
    ],
    'C10': lambda: [
        world('{"raw"}', '{"db"}', 0, 1, 5, 'known', thorough={'MaxStore': 6}),
        world('{"raw"}', '{"db", "raw"}', 0, 1, 4, 'known', thorough={'MaxStore': 5}),
        Traces('world', 'C10', 'TraceWorld', canary=[(op('insert'), 'gets')]),
    ],
    'C11': lambda: [
        proof('{"vec", "list", "pvec", "plist", "raw"}', '{0, 1, 2, 3, 4}', 2, 'FALSE', 'C11', thorough={'Ops': 3, 'Modes': '{"inherited", "unit"}'}),
        proof('{"vec", "list", "plist"}', '{2}', 2, 'TRUE', 'C11', thorough={'Ops': 3}),
        proof('{"vec", "list", "plist"}', '{2, 3, 4, 5}', 3, 'FALSE', 'C11', twin='TRUE', thorough={'Ops': 4, 'Kinds': '{"vec", "list", "pvec", "plist"}'}),
        Traces('proof', 'C11', 'TraceProof', canary=[(yes, 'r')]),
        codec('C11', 4, partners=1, damage='{1}', thorough={'Seeds': 18, 'Partners': 3, 'Damage': '{1, 5}'}),
        codec('C11', 4, mode='unit', thorough={'Seeds': 30}),
        Traces('codec', 'C11', 'TraceCodec', canary=[(op('prove'), 'outs')]),
        partial('{1, 2}', 3, few=4, prop='C11', thorough={'Seeds': '{0, 1, 2, 3, 4, 5, 7}', 'Ops': 4}),
        Traces('partial', 'C11', 'TracePartial', canary=[(lambda e: e['op'] == 'proof' and e['outs'], 'outs')]),
    ],
    'C12': lambda: [
        proof('{"vec", "list", "pvec", "plist", "raw"}', '{0, 1, 2, 3, 4}', 2, 'FALSE', 'C12', thorough={'Ops': 3, 'Modes': '{"inherited", "unit"}'}),
        Traces('proof', 'C12', 'TraceProof', canary=[(yes, 'p'), (op('proof'), 'partial', other_value), (op('proof'), 'proved'), (op('proof'), 'ps')]),
        codec('C12', 4, partners=1, damage='{1}', thorough={'Seeds': 18, 'Partners': 3, 'Damage': '{1, 5}'}),
        Traces('codec', 'C12', 'TraceCodec', canary=[(op('prove'), 'outs'), (lambda e: e['op'] == 'prove' and e['proof'], 'proof'), (op('prove'), 'same')]),
        partial('{1, 2}', 3, few=4, prop='C12', thorough={'Seeds': '{0, 1, 2, 3, 4, 5, 7}', 'Ops': 4}),
        Traces('partial', 'C12', 'TracePartial', canary=[(lambda e: e['op'] == 'proof' and e['outs'], 'outs'), (op('proof'), 'same'), (op('proof'), 'odd', lambda e: ['00'])]),
    ],
    'C13': lambda: [
        Model('MCCompact', {'Size': 2, 'Plains': 4}, ['Told', 'RoundTrip', 'PlainOk'], replay=('compact', 'replay'), thorough={'Size': 3, 'Plains': 6}),
        Traces('compact', 'C13', 'TraceCompact', canary=[(op('compact'), 'n'), (op('compact'), 'enc'), (op('plain'), 'croot'), (lambda e: e['op'] == 'compact' and e['back'], 'back', lambda e: e['back'][1:])]),
    ],
    'C14': lambda: [
        codec('C14', 18, thorough={'Seeds': 90}),
        Traces('codec', 'C14', 'TraceCodec', canary=[(op('enc'), 'root'), (op('enc'), 'v')]),
    ],
    'C15': lambda: [
        codec('C15', 12, partners=2, thorough={'Seeds': 36, 'Partners': 6}),
        codec('C15', 18, mode='unit', thorough={'Seeds': 90}),
        Traces('codec', 'C15', 'TraceCodec', canary=[(op('dec'), 'v'), (op('dec'), 'same'), (op('dec'), 'res')]),
    ],
    'C16': lambda: [
        Model('MCBackend', {'Kinds': '{"vec", "list", "pvec", "plist", "raw"}', 'Modes': '{"inherited"}', 'Lens': '{0, 1, 3}', 'Ops': 2},
              ['Kept'], replay=('backend', 'replay'), thorough={'Modes': '{"inherited", "unit"}', 'Lens': '{0, 2}', 'Ops': 3}),
        codec('C16', 8, thorough={'Seeds': 40}),
        Traces('backend', 'C16', 'TraceBackend', canary=[(lambda e: 'rs' in e, 'rs'), (op('stores'), 'st')]),
        Traces('codec', 'C16', 'TraceCodec', canary=[(op('enc'), 'alts'), (op('enc'), 'all', lambda e: e['all'][:3] + [dict(e['all'][3], left=False)] + e['all'][4:]),
            (op('enc'), 'no', lambda e: e['no'][:1] + [dict(e['no'][1], res='corrupted' if e['no'][1]['res'] != 'corrupted' else 'ok')] + e['no'][2:])]),
    ],
    'C17': lambda: [
        codec('C17', 6, damage='{1, 5}', thorough={'Seeds': 12, 'Damage': '{0, 1, 2, 4, 5, 7, 11}', 'Rich': 'TRUE'}),
        Traces('codec', 'C17', 'TraceCodec', canary=[(op('bad'), 'res')]),
    ],
    'C18': lambda: [
        Model('MCBridge', {'MaxLen': 3, 'PMaxLen': 3, 'Limits': Sub('FewLimits'), 'Modes': '{"inherited", "unit"}'}, ['AsContainer', 'Decodes'],
              replay=('bridge', 'replay'), feed=('bridge', 'types', 'TYPES'), view='View', thorough={'MaxLen': 5, 'PMaxLen': 4, 'Limits': Sub('AllLimits')}),
        Traces('bridge', 'C18', 'TraceBridge', canary=[(op('push', 'set', 'pop'), 'root'), (lambda e: e['op'] == 'get' and e['out'], 'out'), (lambda e: e['op'] == 'dec' and e['out'], 'out'), (op('push'), 'res')]),
    ],
    'C19': lambda: [
        partial('{0, 1, 2, 3}', 3, thorough={'Seeds': '{0, 1, 2, 3, 4, 5, 7}', 'Ops': 4}),
        partial('{1, 2}', 2, mode='unit', thorough={'Ops': 3}),
        partial('{1}', 5, most=2, views=2, thorough={'Seeds': '{1, 2}', 'Large': 3}),
        Traces('partial', 'C19', 'TracePartial', canary=[(lambda e: e['op'] == 'get' and e['out'], 'out'), (lambda e: e['op'] == 'flush' and e['res'] == 'ok', 'root'), (op('flush'), 'res'), (op('look'), 'now')]),
    ],
    'C20': lambda: [
        fault('{"vec", "list", "pvec", "plist", "raw"}', '{0, 1, 2, 3, 4}', '{"none", "adopt"}', 1, 1, thorough={'Ops': 2, 'Tell': 2, 'Lens': '{1, 2, 3, 4}'}),
        fault('{"vec", "plist", "raw"}', '{1, 2}', '{"over"}', 1, 1, limits='NoLimit', thorough={'Kinds': '{"vec", "list", "pvec", "plist", "raw"}', 'Ops': 2, 'Tell': 2}),
        fault('{"vec", "list", "pvec"}', '{1, 2}', '{"none"}', 2, 2, limits='NoLimit', widths='{12}', replayed=False, thorough={'Ops': 3, 'Kinds': '{"vec", "list", "pvec", "plist", "raw"}'}),
        Traces('fault', 'traces', 'TraceFault', canary=[
            (lambda e: e['fault'], 'res'), (lambda e: e['op'] == 'create' and e['res'] == 'ok' and e['h'] == 1 and len(e['store']) > 1, 'store', lambda e: [r for r in e['store'] if r[2] == -1]),
            (lambda e: e['fault'] and e['hs'], 'hs', lambda e: e['hs'][1:])]),
        codec('C20', 4, thorough={'Seeds': 30}),
        Traces('codec', 'C20', 'TraceCodec', canary=[(lambda e: e.get('fault'), 'res')]),
    ],
    'C21': lambda: [
        partial('{1, 2}', 4, faults=1, few=4, thorough={'Seeds': '{0, 1, 2, 3, 4, 5}', 'Few': 7}),
        partial('{3}', 4, faults=2, few=4, thorough={'Seeds': '{1, 3}', 'Ops': 5}),
        partial('{2}', 3, mode='unit', faults=1, thorough={'Ops': 4}),
        Traces('partial', 'C21', 'TracePartial', canary=[(lambda e: e['op'] == 'flush' and e['res'] == 'ok', 'root'), (lambda e: e.get('fault'), 'res'), (op('look'), 'now'), (lambda e: e['op'] == 'get' and e['out'], 'out')]),
    ],
    'C22': lambda: [
        Model('MCWire', {'Seeds': 7, 'Short': 3, 'Depths': '{1000000, 5000000}', 'Twice': 'FALSE'}, ['RoundTrip', 'Sound', 'PrefixFree', 'Nests', 'Told'], replay=('wire', 'replay'), feed=('wire', 'types', 'TYPES'),
              thorough={'Seeds': 30, 'Short': 5}),
        Traces('wire', 'traces', 'TraceWire', canary=[(lambda e: e['op'] == 'out' and e['wired'], 'bytes'), (op('out'), 'doc'), (lambda e: e['op'] == 'json' and e['out'], 'out'),
            (lambda e: e['op'] == 'bytes' and e['out'], 'out'), (op('bytes'), 'left')]),
    ],
    'C23': lambda: [
        sparse(BOTH, '{0, 1, 3, 4, 5}', 2, 1, thorough={'Lost': 2, 'Limits': Sub('MoreLimits'), 'Ops': 3}),
        sparse(BOTH, '{2, 3}', 2, 1, widths='{1, 48}', modes='{"unit"}', thorough={'Lost': 2, 'Lens': '{2, 3, 4}'}),
        sparse(BOTH, '{4}', 2, 1, widths='{16}', twin='TRUE', thorough={'Lens': '{4, 6, 8}'}),
        Traces('sparse', 'traces', 'TraceSparse', canary=[(op('have'), 'res'), (lambda e: e.get('fresh') and e['op'] == 'get' and e['res'] == 'ok', 'out'), (lambda e: e.get('fresh') and e['op'] == 'get', 'res'),
            (lambda e: e.get('fresh') and e['op'] == 'pop' and e['out'] == 'none', 'root'), (lambda e: e.get('fresh') and e['op'] == 'pop', 'len')]),
    ],
    'C24': lambda: [
        parts('{2}', 3, few=2, large=7, thorough={'Seeds': '{1, 2, 3, 4}', 'Lost': 2, 'Few': 5, 'Large': 99}),
        parts('{1}', 0, large=99, put='TRUE', thorough={'Seeds': '{0, 1, 2, 3, 4, 5, 7}'}),
        parts('{2}', 2, mode='unit', large=6, put='TRUE', thorough={'Seeds': '{1, 2, 3}', 'Ops': 3}),
        Traces('partial', 'C24', 'TraceParts', canary=[(lambda e: e['op'] == 'get' and e['res'] == 'ok', 'out'), (lambda e: e['op'] == 'get' and e['res'] in ('overflow', 'corrupted'), 'res'), (op('left'), 'same')]),
    ],
}

LEVEL = {'C20': 'fault_enumeration', 'C21': 'fault_enumeration'}


def level(prop):
    return LEVEL.get(prop, 'model_checking')


def rule(prop):
    return RULE.get(prop)


RULE = {
    'C20': 'every operation of the specification within the bounds, and seeded histories, with each backend call in turn as the failing one (and in part a second failure on the retry); evaluations are executions in the code plus trace events, non-trivial are distinct states of the specification in which they were judged',
}

COMMON = [
    'SHA-256 as implemented by the JDK (the specification) and by the sha2 crate (the code) is taken as collision free on the values seen',
    'TLC, its Json and CommunityModules libraries, and the recording harness are trusted',
]


def assumptions(prop):
    return COMMON + ASSUME.get(prop, [])


ASSUME = {
    'C07': ['lists that grow past or shrink to a power of two leave the nodes of the known finding list-garbage; for them the check allows as many unreachable nodes as the specification of the present algorithm leaves'],
    'C05': ['lists are re-opened through metadata and roots; opening a list from a raw tree is the known finding list-from-raw'],
}
