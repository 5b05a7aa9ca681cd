"""Writes known_findings.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = """
C17 ab4f8da fits that used up max_iterations without converging gave no warning when called through transform, _iterate or CROM
C22 451a428 KMeansMarkovCROM.predict, fit_predict, fit_transform and n_clusters=None raised TypeError or AttributeError
C21 1af8a47 clusters without members or without outgoing transitions gave NaN parameters
C20 f379a81 options for the furthest-sum initialisation (start_index, exclude, n_extra_steps) made other initialisers fail
C10 ba4f19d models fitted with init='custom' could not transform or predict
C12 af8db2a ClusterPWVARX failed on a single endogenous variable given as a column
C20 91352c4 ClusterPWVARX dropped max_iterations, tolerance, verbose and random_state
C09 f2cf7f1 refitting kept coefficients of the previous fit that no longer apply
C12 af9a0bf FEMBVVARX components with different memories combined arrays of different lengths
C16 680dd07 weights were overwritten for solver statuses without a solution
C11 2da7110 fractional entries in a list of memories were truncated and accepted
C11 b49928a missing or list-valued lag weights and transition matrices raised AttributeError instead of being checked
C11 fe35e4d custom stochastic factors with negative entries were accepted
C20 7ca5d09 FEM-BV models ignored init='custom' and the custom parameters
C10 42be068 FEM-BV transform replaced the learned parameters by new initial ones
C20 1ebcfbb max_tv_norm had a default other than the documented None
C11 b20df61 lags were not validated, lists of lags and n_components=None failed in the lagged models
C09 eb703c9 n_components=None kept the number resolved by an earlier fit
C20 a904114 documentation of archetypal analysis options named options that do not exist
C23 d1dc0c0 integer data failed (UFuncTypeError) or gave truncated results
C23 dbe07a8 residuals of integer data were truncated in ClusterPWVARX
C21 b623888 rounding errors of squared distances gave NaN dissimilarities for duplicated samples (furthest-sum initialisation)
C21 b648e9a residual covariances of components with at most one member divided by zero, and constant data raised LinAlgError
C23 f2e43a9 inner products and distances of uint8 or int8 samples wrapped around (ArchetypalAnalysis.transform, furthest-sum initialisations)
""".strip().splitlines()

# rule and construct as printed by the check
FINDINGS = []
for _m in ('KernelAA', 'ArchetypalAnalysis', 'GPNHConvexCoding', 'GPNHConvexCodingCROM', 'MTDConvexCoding',
           'FEMBVKMeans', 'FEMBVVARX'):
    FINDINGS.append(('C17', 'count', '%s.n_iter_ stopped early: counter instead of (1 + counter)' % _m,
                     '%s.n_iter_ is the zero-based index of the last iteration when the fit converges' % _m))
    FINDINGS.append(('C17', 'count', '%s.n_iter_ used up: (-1 + max_iterations) instead of max_iterations' % _m,
                     '%s.n_iter_ is max_iterations - 1 when the iterations are used up' % _m))
for _m in ('KernelAA', 'ArchetypalAnalysis'):
    FINDINGS.append(('C20', 'influence', '%s: delta' % _m,
                     'delta > 0 has no effect: the scale factors alpha are computed but never updated, and their bounds '
                     'are swapped'))
for _m in ('FEMBVVARX', 'ClusterPWVARX'):
    FINDINGS.append(('C20', 'none', '%s(n_components=None)' % _m,
                     'the documented n_components=None raises TypeError'))


def main():
    d = dict(findings=[dict(property=p, rule=r, construct=c, what=w) for p, r, c, w in FINDINGS],
             fixed=['fixed: property=%s %s %s' % tuple(l.split(None, 2)) for l in FIXED])
    with open(os.path.join(HERE, 'known_findings.json'), 'w') as f:
        json.dump(d, f, indent=1)
        f.write('\n')


main()
