#!/usr/bin/env python3
# Writes MANIFEST.json from the list below.
import json, os
T = {
 'C01': ('crash, hang and memory monitors around the analysis under hostile documents', 'Every call is watched for panics, aborts, stack overflow (8 MB), CPU time (20 s, confirmed with 60 s) and memory (1.5 GB); overflow checks and debug assertions are on. The thorough tier repeats part of it under AddressSanitizer.'),
 'C02': ('reference-model monitor: exports compared with the model each document was written from', 'Relies on the generator and on an independent reference parser that has to agree with it for every case.'),
 'C03': ('reference-model monitor: exports of problems compared with the model they were written from', 'Relies on the generator and on an independent reference parser that has to agree with it for every case.'),
 'C04': ('reference-model monitor: exported positions against the written lines', 'Relies on an independent lexer that counts the lines.'),
 'C05': ('relational monitor: layouts of the same tokens', 'Relies on an independent lexer that confirms that the layouts have the same tokens.'),
 'C06': ('reference-model monitor: mutated documents judged by an independent parser', 'Relies on the reference parser; documents outside of the specified language are not judged.'),
 'C07': ('reference-model monitor: verification of consistent models', 'Relies on the generator and on an independent semantic checker that has to find no flaw.'),
 'C08': ('reference-model monitor: injected duplicates', 'Relies on an independent semantic checker.'),
 'C09': ('reference-model monitor: injected undefined names', 'Relies on an independent semantic checker.'),
 'C10': ('reference-model monitor: injected arity and type mismatches', 'Relies on an independent semantic checker.'),
 'C11': ('reference-model monitor: type and ordering graphs', 'Relies on an independent semantic checker.'),
 'C12': ('reference-model monitor: warnings of generated hierarchies', 'Relies on an independent fixpoint computation.'),
 'C13': ('reference-model monitor: metadata of generated hierarchies', 'Relies on an independent fixpoint computation.'),
 'C14': ('reference-model monitor: recursion class and stepwise check of its witness', 'Relies on an independent search for cycles per class.'),
 'C15': ('history monitor: repeated, concurrent and cross-process analyses', 'Interleavings are those the scheduler produced; overlaps are counted. The thorough tier repeats part of it under ThreadSanitizer and AddressSanitizer.'),
 'C16': ('process monitor: output, files and exit of the real command line', 'The expected output is that of the library, called in-process; the library itself is the subject of the other checks.'),
 'C17': ('protocol monitor: diagnostics of the real language server', 'The expected findings are those of the library, called in-process; the library itself is the subject of the other checks.'),
 'C18': ('history monitor: pipelined JSON-RPC histories with unique versions', 'Interleavings are those the scheduler produced, with up to hundreds of messages in flight. The thorough tier repeats part of it under ThreadSanitizer and AddressSanitizer.'),
 'C19': ('protocol monitor: exactly one response per request, liveness at the end', 'A missing response is a violation only if the server is dead, idle (all threads asleep, no CPU time) or burns more than 60 s of CPU time.'),
 'C20': ('relational monitor: consistent renaming', 'Relies on the reference only to tell single flaws from several.'),
 'C21': ('relational monitor: permuted declarations', 'Relies on the reference only to tell single flaws from several.'),
 'C22': ('relational monitor: agreement of the entry points', 'Relies on the reference only for undefined tasks.'),
 'C23': ('memory monitor: live heap of the process, resident memory of the language server, per period of equal work', 'Slow growth below an eighth of the traffic of the server is not told from noise.'),
 'C24': ('text monitor: rendered findings against their contents, and those against the reference', 'Texts are free except for the names, numbers, lines and kinds they have to tell.'),
}
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
skip = set(os.environ.get('SKIP', '').split())
m = {
 'version': 1,
 'setup_cmd': 'bash setup.sh',
 'checks': [{
   'property': i,
   'quick_cmd': f'bash check.sh {i}',
   'thorough_cmd': f'env VERIF_TIER=thorough bash check.sh {i}',
   'technique': 'runtime monitoring: ' + T[i][0],
   'level': 'exploration',
   'level_note': 'Held on the executions observed, as counted in the evidence; nothing is claimed for others. ' + T[i][1],
 } for i in ids if i not in skip],
 'not_applicable': [{'property': i, 'reason': 'check under construction'} for i in ids if i in skip],
}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
