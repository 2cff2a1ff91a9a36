#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties below."""
import json
CLAIMED = {
 'P01': '',
 'P02': '', 'P03': '', 'P04': '', 'P05': 'The spline and the check of point order are bounded: up to four points.',
 'P06': '', 'P07': 'Streams of up to three dividends.', 'P08': 'Streams of up to two dividends.', 'P09': '', 'P10': 'Surfaces of up to three expiries.',
 'P11': '', 'P12': 'Tables of up to three recorded values.',
 'P13': 'Portfolios and baskets of up to three components.', 'P14': 'Baskets and portfolios of up to three components.',
 'P15': 'Two names whose data are arbitrary, among any number of others; sequences of up to three bumps.', 'P16': 'Two names with prefetched forwards; sequences of up to three bumps.',
 'P17': 'Baskets of up to three components.', 'P18': 'Reports on up to three names.', 'P19': 'Up to two observations and two names.', 'P20': '', 'P21': 'All contracts are bounded: up to three observations, two paths and two names; bumps and flows of the whole model with one name, one observation and two paths. Nothing is counted as proved.', 'P24': 'Reports on up to three names, lists of up to two reports.',
}
NOT_APPLICABLE = {
 'P22': 'What is written and read is decided inside serde_json, erased_serde and serde_tagged through derive-generated visitors and function pointers in run-time registries; contracts would have to assume the behaviour of exactly the part that decides the property.',
 'P23': 'The claims are about thread-local state across panics and raw pointers handed to and from C; the generator models neither unwinding nor ownership through raw pointers, so the obligations cannot be stated over the real code.',
}
LEVEL = {'P21': 'other'}
NOTE = 'Contracts on the real functions (harness/src/proofs/%s.rs), obligations generated from compiler MIR of /repo on every run by qmv and discharged by z3/cvc5; f64 as real numbers. %s'
ids = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'bash /verif/setup.sh', 'hooks': {'guard': 'none', 'enable': 'none', 'source_commits': []},
 'checks': [{'property': p, 'quick_cmd': 'python3-vt /verif/check.py %s quick' % p, 'thorough_cmd': 'python3-vt /verif/check.py %s thorough' % p,
   'technique': 'contract-based deductive verification', 'level': LEVEL.get(p, 'proof'), 'level_note': (NOTE % (p.lower(), CLAIMED[p])).strip(),
   'evidence_file': 'evidence/%s.json' % p} for p in ids if p in CLAIMED],
 'not_applicable': [{'property': p, 'reason': NOT_APPLICABLE.get(p, 'check not built yet')} for p in ids if p not in CLAIMED],
 'notes': 'One engine (qmv) and one harness crate serve all properties; see DESIGN.md.'}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
