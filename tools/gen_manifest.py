import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    'C18': 'the lookups rest on std::map, std::transform and strtol/strtod, for which this verifier has no contracts, and CBMC (the only other installed deductive back end) does not accept the C++; four defects found by reading were repaired, but no obligation is discharged',
    'C20': 'the scanner works on symbolic byte buffers with pointer scans whose invariants (terminator positions) the verifier cannot state; a run of CBMC on it would be a bounded check without contracts',
    'C26': 'main() reads a deck, owns every object and nests event, step, particle and process loops that allocate; the loop rule has no invariant for allocation inside two nested unbounded loops',
    'C28': 'the event loop allocates particles inside unbounded nested loops, and the results are pybind11 arrays without a contract; what a run builds and refuses is proved under C27',
    'C29': 'the guarantee relates the message sequences of several processes; contracts on one sequential function cannot state that every message sent is received',
    'C30': 'data-race freedom and independence of draws under OpenMP need a concurrent program logic; no verifier here has contracts for threads on this C++ code, and the symbolic executor is sequential',
    'C31': 'convergence of simulated spectra to the QED rates is a statistical limit statement about many runs; no function contract over finite executions expresses it',
}
NOTE = json.load(open(ROOT + '/tools/level_notes.json')) if os.path.exists(ROOT + '/tools/level_notes.json') else {}
checks, na = [], []
for l in open(ROOT + '/properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
    elif i in NOTE:
        checks.append({'property': i, 'quick_cmd': './check %s' % i, 'thorough_cmd': './check %s' % i, 'evidence_file': 'evidence/%s.json' % i,
                       'technique': 'contract-based deductive verification: contract drivers over the LLVM IR of the real functions, obligations discharged by rational normalisation, z3 and cvc5',
                       'level': 'proof', 'level_note': NOTE[i]})
    else:
        na.append({'property': i, 'reason': 'check under construction'})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na}, open(ROOT + '/MANIFEST.json', 'w'), indent=1)
