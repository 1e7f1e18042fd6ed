"""registry of property deciders"""
import core
PROPS = {}
def prop(pid, rule, assumptions=(), level="exploration", min_evals=20, max_stop=.12):
    def deco(fn):
        def run(tier, seed):
            core.LOG.clear()
            v = core.Verdict(pid, rule, assumptions)
            fn(v, tier, seed)
            return v
        run.level, run.min_evals, run.rule, run.max_stop = level, min_evals, rule, max_stop
        PROPS[pid] = run
        return run
    return deco
def n_of(tier, quick, thorough):
    return quick if tier == "quick" else thorough
