#!/usr/bin/env python3
# Writes /verif/MANIFEST.json: one check for every property with a harness.
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
T = {
 'C01': 'stateful property-based testing: buffer histories against std::string',
 'C02': 'stateful property-based testing: vector histories against a reference sequence with release accounting',
 'C03': 'stateful property-based testing: list histories against reference sequences with identity and release accounting',
 'C04': 'stateful property-based testing: map histories with adversarial hashes against std::map with release accounting',
 'C05': 'differential property-based testing against an independent FarmHash/Murmur implementation',
 'C06': 'stateful property-based testing: string histories against std::string',
 'C07': 'property-based testing with generated fragmentation of system calls: round trips against file contents',
 'C08': 'exhaustive enumeration of generated inputs against naive decimal formatting',
 'C09': 'property-based testing: slice operations and push sequences against std::string in exact-size memory',
 'C10': 'coverage-guided grammar fuzzing, differential against a reference parser and between builds, plus enumerated single-byte edits',
 'C11': 'coverage-guided grammar fuzzing, differential against a reference parser and between builds, plus enumerated single-byte edits',
 'C12': 'metamorphic fuzzing (prefixes, growing input, following bytes) in exact-size memory under ASan',
 'C13': 'property-based testing: serialisation against an independent serialiser, and round trips',
 'C14': 'property-based testing against a naive definition',
 'C15': 'metamorphic fuzzing over fragmentations against a reference decoder',
 'C16': 'stateful property-based testing: generated handler programs against a model of the registrations',
 'C17': 'stateful property-based testing: generated loop histories with a controlled clock against a model',
 'C18': 'stateful property-based testing: descriptor histories against the model of masks and file state',
 'C19': 'stateful property-based testing: timer histories against elapsed periods',
 'C20': 'property-based testing over generated thread schedules with an accounting invariant',
 'C21': 'stateful property-based testing: file system histories against the model of expected reports',
 'C22': 'stateful property-based testing over generated stages of the worker thread, under ASan',
 'C23': 'differential property-based testing against getaddrinfo, over generated lookup histories',
 'C24': 'property-based testing with injected system call failures and generated key files',
 'C25': 'stateful property-based testing: stream histories against byte sequences, tiny buffers, partial writes',
 'C26': 'stateful property-based testing: TLS stream histories against byte sequences through a fragmenting relay',
 'C27': 'stateful property-based testing: notification and close histories with injected disconnects against a model',
 'C28': 'stateful property-based testing: request sequences, segmentations and deferred answers against a reference server',
 'C29': 'grammar fuzzing of connections against the reference parser and a model of the server',
 'C30': 'stateful property-based testing: connection lifetimes under ASan with memory and descriptor accounting',
 'C31': 'property-based testing with a controlled clock against an independent calendar',
 'C32': 'differential property-based testing: the same generated histories over TLS and against the reference server',
 'C33': 'differential property-based testing: per-thread workloads concurrent against alone',
}
DETERMINISM = {
 'C19': 'Real timers of a few milliseconds; the oracle only uses bounds that hold under any scheduling delay. ',
 'C20': 'Thread interleavings are sampled from the real scheduler. ',
 'C22': 'Thread interleavings are steered by generated gates and otherwise sampled from the real scheduler. ',
 'C23': 'Only names the sandbox can answer without a network (numeric, hosts file, invalid) are resolved. ',
 'C33': 'Thread interleavings are sampled from the real scheduler. ',
}
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
checks, na = [], []
REASON = {}
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(here, 'harness', i + '.cc')):
        if i == 'C08':
            note = 'Quick enumerates one eighth of the 2^32 values (every digit-count and power-of-two neighbourhood plus a seeded residue class), thorough all of them. '
        else:
            note = 'Holds on every generated case and enumerated input of the run; not a proof. '
        note += DETERMINISM.get(i, '')
        note += 'Trusts the harness oracle, ASan, and the stand-ins for system calls; built with clang -O1.'
        checks.append({'property': i, 'quick_cmd': f'./run.sh {i}', 'thorough_cmd': f'./run.sh {i} --tier thorough',
                       'evidence_file': f'evidence/{i}.json', 'technique': T[i], 'level': 'exploration', 'level_note': note})
    else:
        na.append({'property': i, 'reason': REASON.get(i, 'no check built yet')})
m = {'version': 1, 'setup_cmd': './tools/setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the library is built from /repo/src as it is and its calls of the system interface are redirected at object level (engine/redefine.syms). The only commits in /repo are fixes.'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
