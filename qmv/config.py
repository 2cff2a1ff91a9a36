"""Settings of the checks, the assumptions every proof rests on, known findings."""
import json, os

BUDGET_QUICK = 240        # seconds a contract may take to prove
BUDGET_THOROUGH = 420
PROOF_QUICK = 420          # seconds all contracts of a property may take together
PROOF_THOROUGH = 500
SEARCH_QUICK = 20         # seconds of concrete search per property (8 workers)
SEARCH_THOROUGH = 60
CASES_QUICK = 200000
CASES_THOROUGH = 5000000

ASSUMPTIONS = [
    'f64 arithmetic is treated as arithmetic of real numbers extended by NaN and the two infinities: no rounding, no overflow of finite values, no signed zero',
    'integer overflow is not assumed away: the compiler\'s overflow and bounds assertions are obligations',
    'MIR of the nightly compiler (debug assertions on) stands for the semantics of the source compiled by the stable one',
    'memory is modelled as disjoint cells with paths; unsafe code of the standard library is replaced by contracts',
    'allocation never fails and the stack is deep enough',
    'dropping a value has no effect other than releasing it',
    'loops without an invariant are unrolled completely (their trip count is fixed on each path); loops with an invariant are proved partially correct',
]

NOTES = {}
def notes(prop): return NOTES.get(prop, [])
def strict(prop): return False

_f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.jsonl')
def known(prop, contract, label):
    """a known finding is identified by property, contract and obligation"""
    if not os.path.exists(_f): return None
    for l in open(_f):
        l = l.strip()
        if not l.startswith('{'): continue
        k = json.loads(l)
        if k['property'] == prop and k['contract'] == contract.split('::')[-1] and label.startswith(k['obligation']): return k['what']
    return None
