"""Shared driver of the properties that compare weights with the reference (C02-C05, C08)."""
import numpy as np

from rtm import oracle, ref
from rtm.core import digest


def compare(ctx, land, T, need_two=True):
    """Reported partition functions and probabilities against the reference."""
    ctx.note.update(land.describe(), T=T)
    model = ref.Model(land)
    sa = land.build()
    amp = model.amplitude(T)
    terms = model.log_terms(T)
    logw = sum(terms.values())
    P = oracle.as_table(ctx, sa.calc_probability(T), land.N, T.size, 'calc_probability')
    oracle.same_logP(ctx, P, ref.normalize(logw), amp, 'calc_probability')
    Z = oracle.as_table(ctx, sa.calc_partition_functions(T), land.N, T.size, 'calc_partition_functions')
    n = oracle.same_ratios(ctx, Z, logw, amp, 'calc_partition_functions',
                           oracle.representable(list(terms.values())),
                           whole=all((x < 600).all() for x in terms.values()))
    for kind, pf in zip(land.kinds, land.parts()):
        z = oracle.as_table(ctx, pf.calc_part_func(T), land.N, T.size, type(pf).__name__ + '.calc_part_func')
        n += oracle.same_ratios(ctx, z, terms[kind], amp, type(pf).__name__ + '.calc_part_func')
    ctx.sample({'land': land.describe(), 'T': T, 'P': P})
    if not oracle.nontrivial(P) and need_two:
        return None
    return digest(land.kinds, *land.arrays().values(), T)


def cross_examine(ctx, land, T):
    """One temperature against 60-digit mpmath (checks the code and the reference)."""
    P, C = ref.mp_results(land, land.kinds, T)
    model = ref.Model(land)
    Ta = np.array([T])
    with np.errstate(divide='ignore'):
        logP = np.log(np.array(P, dtype=np.longdouble))[:, None]
    mine = model.logP(Ta)
    seen = mine > -600
    assert np.abs(mine - logP)[seen].max() < 1e-12 + 1e-15 * float(model.amplitude(Ta)[0]), 'reference disagrees with mpmath'
    obs = land.build().calc_probability(Ta)
    oracle.same_logP(ctx, obs, np.where(seen, logP, mine), model.amplitude(Ta), 'calc_probability (mpmath)')
    ctx.count('mpmath_cross_examinations')
    return P, C
