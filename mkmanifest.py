#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/config.py and properties.jsonl."""
import json, os
from checks.config import CHECKS
V = os.path.dirname(os.path.abspath(__file__))
TECH = {
    'C01': 'round-trip monitor against a value model, ASan+UBSan, boundary-biased workloads',
    'C02': 'translation monitor against a value model over all protocol pairs and chains, ASan+UBSan',
    'C03': 'hostile-input stress under ASan+UBSan with guard pages, hang watchdog and view-containment monitor',
    'C04': 'allocation hooks, read-only pages and ASan poisoning of payloads that must not be read',
    'C05': 'exact-value monitor of every numeric accessor on boundary integers and doubles, ASan+UBSan',
    'C06': 'consistency monitor over predicates, accessors, lookup and iteration, ASan+UBSan',
    'C07': 'element-by-element tensor round-trip monitor against an index model, ASan+UBSan',
    'C08': 'tensor reads of forged headers against a 128-bit arithmetic oracle, ASan+UBSan and guard pages',
    'C09': 'address, alignment and ownership monitor of tensor views at all offsets, ASan+UBSan',
    'C10': 'ThreadSanitizer stress with a sequential-result oracle and injected schedule noise',
    'C11': 'deleter-event log checker, allocation balance and ASan lifetime detection over operation histories',
    'C12': 'independent decoders of each wire format over recorded output, repeat runs under scrambled memory',
    'C13': 'independent encoders producing non-canonical conforming messages, read-back monitor, ASan+UBSan',
    'C14': 'byte-equality monitor over all ways to write a value, argument-evaluation event log, ASan+UBSan',
    'C15': 'RFC 4648 reference comparison, exhaustive short inputs, ASan+UBSan',
    'C16': 'fault injection at every allocation and callback, writer-misuse histories, leak balance, ASan+UBSan',
    'C17': 'token-order monitor of diagnostic text against a value model, corrupt messages on guard pages, hang watchdog, ASan+UBSan',
    'C18': 'peak-heap monitor (malloc hooks) around every operation on hostile bytes, guard pages, ASan+UBSan',
    'C20': "a user's protocol as oracle: heap-owning reader under sanitizers, automaton writer, exceptions injected into every call of user code",
    'C21': 'the round-trip, translation, builder and tensor monitors built with "import zerialize", ASan+UBSan',
    'C19': 'page-fault trace of the message during reader operations, total-allocation monitor of writers',
}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CHECKS:
        checks.append(dict(property=i, quick_cmd=f'python3 run.py {i}', thorough_cmd=f'python3 run.py {i} --tier thorough', technique=TECH[i], level=CHECKS[i]['level'],
                           level_note=CHECKS[i].get('note') or 'Holds on every execution observed; reach comes from the workload described in the evidence rule, not from enumeration of all inputs. JSON and CBOR run over small stand-ins for yyjson and jsoncons (shims/), which are not installed here.'))
    else:
        na.append(dict(property=i, reason='check not built yet'))
m = dict(version=1, setup_cmd='python3 run.py --setup', checks=checks, not_applicable=na,
         notes='No hooks in /repo: all instrumentation is compiled around the unmodified headers. Fix commits are listed in known-findings.txt.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
