"""The property table: writes properties.jsonl and MANIFEST.json.

A property is claimed when specs/ registers units for it."""
import json
import os
import sys

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
PROPS = []


def P(id, title, statement, over, quant, why, files, mech, observe=()):
    PROPS.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over.split(), text=quant),
        why_tests_cant=why,
        anchors=dict(files=files, mechanism=[
            dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe))))


PR = ['src/primitives/%s.py' % n for n in (
    'bernoulli', 'beta', 'categorical', 'crp', 'exponential', 'geometric',
    'lognormal', 'normal', 'normal_trunc', 'poisson', 'vonmises',
    'distribution')]

P('C01', 'A component model always summarises exactly the rows it holds',
  'Each of the eleven component distributions (bernoulli, beta, categorical, '
  'crp, exponential, geometric, lognormal, normal, normal_trunc, poisson, '
  'vonmises) starts empty, holds a row after incorporating it and no longer '
  'after unincorporating it. At every moment its reported sufficient '
  'statistics are the statistics of exactly the rows it holds. Incorporating '
  'a row and unincorporating it again restores the previous state, and '
  'neither operation touches the hyperparameters.',
  'inputs histories', 'every data set already held, every hyperparameter '
  'setting, every row and value, every history of insertions and removals',
  'Tests incorporate a handful of fixed data sets; the invariant is about '
  'every reachable multiset of rows and every insertion or removal from it.',
  PR, [('incorporate / unincorporate keep the sums', 'src/primitives/*.py'),
       ('data dictionary', 'src/primitives/*.py')],
  ['get_suffstats()', 'data'])
P('C02', 'The joint score of a component is the chain of its predictives',
  'For each of the eleven component distributions, at any held data and '
  'hyperparameters, incorporating a row changes the joint log score by '
  'exactly the predictive log density of that row given the rows held before '
  '(for beta and normal_trunc, given the current parameters). The score of no '
  'data is 0, or the log prior of the parameters for the two uncollapsed '
  'components. Hence the score does not depend on the order of arrival.',
  'inputs histories', 'every held data set, value in the support and '
  'hyperparameter setting',
  'Tests compare a few numbers; the identity is between two closed forms at '
  'every point.', PR,
  [('calc_predictive_logp and calc_logpdf_marginal', 'src/primitives/*.py')],
  ['logpdf', 'logpdf_score'])
P('C03', 'Components accept exactly their support and reject malformed calls',
  'Each component distribution gives a finite log density to every value of '
  'its support and log density minus infinity to every value outside it, and '
  'incorporating a value outside the support raises ValueError. '
  'Incorporating a row twice, removing a row that is not held, observing or '
  'querying another variable, and passing unexpected inputs or constraints '
  'are rejected with an exception. A rejected call leaves the held data and '
  'statistics as they were.',
  'inputs', 'every value, every held data set and hyperparameter setting',
  'The support boundary and rejected calls are a handful of literal cases in '
  'the tests.', PR,
  [('support guards', 'src/primitives/*.py'),
   ('argument checks', 'src/primitives/distribution.py')],
  ['incorporate', 'logpdf', 'simulate'])
P('C04', 'Components evaluate and draw from the stated predictive law',
  'The log density of each component distribution is the posterior '
  'predictive of its textbook model (beta-bernoulli, '
  'dirichlet-categorical, Chinese restaurant process, gamma-exponential, '
  'gamma-poisson, beta-geometric, normal-gamma normal and lognormal, von '
  'Mises with unknown mean, and beta and truncated normal at their current '
  'parameters). Simulating an unheld row draws from that same law, '
  'simulating a held row returns its value, and N samples come as a list of '
  'N. Simulation never changes the held data.',
  'inputs', 'every held data set, value and hyperparameter setting',
  'Sampling tests are statistical and fixed to one data set; the predictive '
  'is a formula over all data.', PR,
  [('logpdf / simulate', 'src/primitives/*.py'),
   ('simulate_many', 'src/utils/general.py')], ['logpdf', 'simulate'])

exec(open(os.path.join(H, 'tools', 'props_more.py')).read())

NOT_CLAIMED = dict()


def main():
    from vf import worker, spec
    worker.load_specs()
    claimed = [p['id'] for p in PROPS if spec.UNITS.get(p['id'])]
    with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps(p) + '\n')
    checks = []
    for p in PROPS:
        if p['id'] not in claimed:
            continue
        us = spec.UNITS[p['id']]
        proof = any(u.prove for u in us)
        nb = sum(1 for u in us if not u.prove)
        checks.append(dict(
            property=p['id'], quick_cmd='./check.py ' + p['id'],
            thorough_cmd='VERIF_TIER=thorough ./check.py ' + p['id'],
            technique='contract-based deductive verification: '
            'pre/postconditions and data-structure invariants over the '
            'mechanically translated real code, obligations discharged by '
            'z3, cvc5 and algebraic normal forms'
            if proof else 'contracts on the real code evaluated by a bounded '
            'check (stand-in: outside the reach of the verifier)',
            level='proof' if proof else 'exploration',
            level_note=('%d contract units proved for all inputs; %d units '
                        'are bounded stand-ins and not counted as proved'
                        % (len(us) - nb, nb))))
    na = []
    for p in PROPS:
        if p['id'] not in claimed:
            na.append(dict(property=p['id'], reason=NA.get(
                p['id'], 'contracts for this property are not written yet')))
    m = dict(version=1,
             setup_cmd='/opt/venv/bin/python -c "import vf.worker"',
             checks=checks, not_applicable=na)
    with open(os.path.join(H, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(PROPS), 'properties', len(checks), 'claimed')


if __name__ == '__main__':
    main()
