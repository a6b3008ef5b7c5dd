"""P28: hilapp refuses the loops without a meaning, and no others."""
from vlib import rules

CFG = '''SPECIFICATION MCSpec
CONSTANTS MaxLen = %d
INVARIANTS AcceptedHaveMeaning RefusedHaveNone
CHECK_DEADLOCK FALSE
'''


def check(ctx):
    W = ctx.pick(['v2', 'v3'], ['v2', 'v3', 'a3', 'o3'])
    ctx.model('LoopRulesMC', CFG % ctx.pick(2, 3), 'the rules against what loops of %d statements do in every order of the sites and on two ranks' % ctx.pick(2, 3))
    exes = ctx.build([])
    rng = ctx.rng
    sc = [rules.Scenario(rng.choice(W), rng, rng.choice([1, 3, 5]), rng.random() < 0.75) for i in range(ctx.pick(200, 4000))]
    ctx.conform(sc, 'LoopRulesTrace', exes)
    ctx.assumptions = ['a loop over a variable parity is over one parity at a time']
