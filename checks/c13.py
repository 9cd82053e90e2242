"""Runs that fail: Run.tla"""
import random
import lib
import runs


def check(rep, tier, scratch):
    quick = tier == 'quick'
    cases = lib.tlc(scratch, 'Run', 'Run_single.cfg', rep.stats)
    if quick:
        random.Random(lib.seed()).shuffle(cases)
        cases = cases[:3000]
    cases += lib.tlc(scratch, 'Run', 'Run_histories.cfg', rep.stats, simulate=150 if quick else 800, depth=40, seed=lib.seed())
    cases += lib.tlc(scratch, 'Run', 'Run_faults.cfg', rep.stats, simulate=150 if quick else 3000, depth=40, seed=lib.seed())
    runs.replay(rep, scratch, cases)
