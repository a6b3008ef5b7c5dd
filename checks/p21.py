"""P21: checkpoints, crashes, resuming; the time limit."""
from vlib import io, tim


def check(ctx):
    W = ctx.pick(['v2', 'v3'], ['v1', 'v2', 'v3', 'v4', 'a3'])
    exes = ctx.build([(v, 'io') for v in W] + [('v2', 'tim')])
    rng = ctx.rng
    n = ctx.pick(5, 7)
    ctx.model('TimeMC', 'CONSTANTS MaxSteps = %d Limits = {500, 503} Steps = {1, 3, 9}\nSPECIFICATION MSpec\nINVARIANT Agree\nCHECK_DEADLOCK FALSE\n' % n,
              'the time check against its definition, all histories of %d steps' % n)
    n = ctx.pick(4, 6)
    ctx.model('CheckpointMC', 'CONSTANTS MaxTraj = %d MaxRuns = %d Goals = {3, 4}\nSPECIFICATION Spec\nINVARIANTS Safe Sound Honoured InStep\nCHECK_DEADLOCK FALSE\n' % (n, n),
              'the file system steps of a checkpoint, a crash between any two, up to %d runs' % n)
    ctx.conform([tim.program(rng, rng.choice([1, 1, 2, 3])) for _ in range(ctx.pick(80, 3000))], 'TimeTrace', exes)
    sc = [io.checkpoints(rng, W, ctx.pick(150, 300), rng.choice([2, 3, 3, 4, 5])) for _ in range(ctx.pick(80, 1500))]
    ctx.conform(sc, 'IoTrace', exes)
