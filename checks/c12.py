"""Backups: Run.tla"""
import lib
import runs


def check(rep, tier, scratch):
    n = 1 if tier == 'quick' else 15
    cases = lib.tlc(scratch, 'Run', 'Run_backups.cfg', rep.stats, simulate=100 * n, depth=40, seed=lib.seed())
    cases += lib.tlc(scratch, 'Run', 'Run_same.cfg', rep.stats, simulate=50 * n, depth=40, seed=lib.seed())
    runs.replay(rep, scratch, cases)
