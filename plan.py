"""What decides each property. `bounded`: clauses no discharged contract covers (explored only, never counted as proved)."""
ALL = ['C%02d' % i for i in range(1, 24)]
BOUNDED = {p: ['the whole statement'] for p in ALL}
for p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C12', 'C14', 'C23'):
    BOUNDED[p] = []
BOUNDED['C10'] = ['joining a list of sample sets (recursion over a list)']
BOUNDED['C11'] = ['reading queries that have no contract: grouping, marginals, folding, joining, activation, exported views']
BOUNDED['C13'] = ['exported edge views of outcomes']
BOUNDED['C18'] = []

RULE = ('cases are generated at random over small declarations (mixed Python types, hash-colliding values, literals mined '
        'from the source) with the seed of the run; a case is counted when its text differs from all earlier ones, and the '
        'generators only make cases with at least one operation or object to judge')
TRUSTED = ['z3 and cvc5', 'pyv: translation of the Python subset to obligations (symbolic execution, loop summaries)',
           'CPython semantics of sets, dicts, comprehensions and assert as encoded in pyv']
ASSUMPTIONS = [
    'variables, values and relations have lawful __eq__/__hash__; asserts are enabled',
    'Python integers are mathematical integers, floats are treated as exact reals',
    'sets and dictionaries are finite; termination and recursion limits are not proved',
    'log, string rendering and display functions have no effect on the state',
]
SPECIFIC = {}


def known(prop, py, here):
    """descriptions of the listed findings of a property that still reproduce"""
    import os
    import subprocess
    out = []
    for line in open(os.path.join(here, 'known-findings.txt')):
        if line.startswith('KNOWN-FINDING: property=%s ' % prop):
            text = line.split(' ', 2)[2].strip()
            script = os.path.join(here, 'harness', 'finding_%s.py' % prop)
            r = subprocess.run([py, script], cwd=here, env=dict(os.environ, PYTHONHASHSEED='3', PYTHONDONTWRITEBYTECODE='1'), capture_output=True)
            if r.returncode == 1:
                out.append(text)
    return out

NOT_APPLICABLE = []


def technique(p):
    if not BOUNDED[p]:
        return 'contracts on the real functions, discharged by deductive verification (pyv, z3/cvc5)'
    if BOUNDED[p] == ['the whole statement']:
        return 'bounded stand-in: randomised exploration of the real code against an oracle'
    return 'contracts discharged by deductive verification (pyv, z3/cvc5); bounded exploration for the rest'


def note(p):
    if not BOUNDED[p]:
        return 'every clause is a contract on the real functions, discharged for all inputs from the current source on each run'
    return 'explored only (bounded, not proved): ' + '; '.join(BOUNDED[p])
