"""Writes MANIFEST.json and known_findings.json from the tables below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

ENGINE = ('Sound up to the engine: the value-numbering abstract interpreter and its table of library functions '
          '(reorsa/models.py) are trusted, arithmetic is exact (no rounding), and option choices are enumerated in the '
          'configurations listed in the evidence; sizes, data, seeds and numeric options are symbolic. What the engine '
          'cannot decide is listed as undecided in the evidence, never as proved.')

# property: (technique, note)
CHECKS = {
    'C01': ('inductive invariant by type-like rules on the value graph: rows non-negative and summing to one',
            'Products, projections, normalised draws, one-hot scatters and clipped solutions of the linear program are the '
            'rules; each loop value is checked at entry and at the back edge. '),
    'C02': ('inductive invariant by type-like rules on the value graph; partition-of-unity algebra for transition counts',
            'Transition counts are expanded for 1, 2 and 3 clusters; forecasts for a symbolic number. '),
    'C22': ('abstract interpretation: call binding, definite assignment and attribute typestate over sequences of public calls',
            'Proves that every call binds and every variable, attribute and key read is defined on all modelled paths of '
            'the enumerated call sequences. '),
    'C12': ('shape inference with symbolic dimensions over sequences of public calls',
            'Every array operation, index, slice and store is compared as polynomials in the symbolic sizes. '),
    'C17': ('loop-summary dataflow: trip counts, exit- and back-edge conditions, path conditions of warnings',
            'Assumes that the loops limited by max_iterations are the iterations meant by the documentation. '),
    'C15': ('symbolic evaluation of the constraint system as an affine form, entry by entry, on a grid of sizes',
            'The layout of the linear program is evaluated by constant propagation on a grid of sizes. '),
    'C16': ('path-sensitive dataflow: the solver status as an uninterpreted value, case split over every documented status',
            ''),
    'C07': ('side-condition dataflow: draws and their generators traced through the value graph, effect analysis', ''),
    'C08': ('ownership and alias analysis: every in-place write is traced to the caller\'s arrays', ''),
    'C09': ('history-insensitivity by value numbering: no value of an earlier fit reaches the later one', ''),
    'C10': ('effect analysis of transform, predict and inverse_transform on the fitted attributes', ''),
    'C20': ('dependence analysis: the symbol of each option must reach the outcome it is documented to control', ''),
    'C06': ('loop summaries: inductive closed form of the cost and path conditions of the raised errors',
            'The cost at the loop head is closed over the factors by induction on the loop; the raise must follow from an '
            'increase after the full iteration and after each update. '),
    'C05': ('loop summaries of the line searches; sufficient-decrease test matched against normal forms of the objective',
            'Objective and directional derivative are compared as polynomials in traces of matrix words; comparisons of lags '
            'assume n_samples >= 4 * max lag. '),
    'C03': ('loop summaries: inductive closed form of the cost, compared in normal form with reference formulas',
            'The objective is compared as a polynomial in traces of matrix words with a reference formula at the exposed '
            'factors. Comparisons of lags assume n_samples >= 4 * max lag. '),
    'C13': ('value-graph matching: design matrices expanded block by block, residuals compared in normal form',
            'Orders p in 0..3 and s in 0..2, memories in {0, 1, (1, 2), (2, 1), (2, 0)}, 1 to 3 components; the numbers of '
            'samples and variables are symbolic. '),
    'C04': ('symbolic differentiation of the normal form of the objective, compared with the direction of each line search',
            'Comparisons of lags assume n_samples >= 4 * max lag. '),
    'C11': ('path-sensitive constant propagation of invalid arguments up to the head of the main loop',
            'One representative invalid value of each kind per argument; each must end in ValueError on every path. '),
    'C21': ('interval and sign analysis of every divisor, square root and matrix inversion, with path conditions', ''),
    'C18': ('abstract interpretation of the syntax tree: concrete index bookkeeping, formal sums for dissimilarities, every outcome of '
            'every order and comparison followed',
            'Up to 5 samples (6 in the thorough tier), up to 5 extra steps, symmetric dissimilarities; for 5 and more samples only the last '
            'place of every order is varied. '),
    'C14': ('symbolic evaluation of forecasts compared in normal form with the recursion over lags; loop induction; counts entry by '
            'entry',
            'Forecasts: lags up to 3, horizons up to 4, up to 5 samples evaluated row by row, and any horizon by induction on the '
            'window of the loop; transition counts for up to three clusters. '),
    'C24': ('abstract interpretation of the syntax tree: entries as letters, linear forms, every order and comparison followed; optimality '
            'conditions of the projection implied by the recorded facts',
            'Vectors of length up to 5 (6 in the thorough tier), matrices up to 2 x 3 and 3 x 2 (3 x 3), real arithmetic. '),
    'C23': ('two abstract interpretations of the source on the same symbolic samples, their value graphs matched coinductively through '
            'loops; a clash is settled in polynomial and matrix normal form',
            'Forecasts: lag lists (1), (2), (1,2), (2,1), (1,3) (more in the thorough tier), horizon 0, 1 and symbolic; real arithmetic. '),
    'C19': ('taint analysis on the value graph, through loop values, exits and branch conditions', ''),
}

NA = {
    'C25': 'Convergence to a stationary point is a limit statement about the numerical iteration; no static argument in '
           'reach bounds it. The ingredients (exact gradient, sufficient decrease, stopping) are C04, C05 and C17.',
    'C26': 'Recovery of planted models depends on the numerical values of data and on the quality of a local optimum.',
}

PENDING = 'The check for this property is not built yet.'


def main():
    ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
    checks = []
    na = []
    for i in ids:
        if i in CHECKS:
            tech, note = CHECKS[i]
            checks.append(dict(property=i, quick_cmd='python3 -m reorsa %s --quick' % i,
                               thorough_cmd='python3 -m reorsa %s --thorough' % i,
                               evidence_file='evidence/%s.json' % i, technique=tech, level='other',
                               level_note=note + ENGINE))
        else:
            na.append(dict(property=i, reason=NA.get(i, PENDING)))
    m = dict(version=1, setup_cmd='python3 -m compileall -q reorsa', checks=checks, not_applicable=na,
             notes='Static analysis only; no hooks in /repo. known_findings.json lists genuine defects: "findings" are '
                   'not repaired and reported as KNOWN-FINDING, "fixed" are repaired by fix: commits.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
