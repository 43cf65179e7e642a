"""Properties of the C interface: stack operations, and calls between the host and scripts."""
import random
import apigen, judge, runner
from engine import Job, Prop
from props_lang import MON, drv
from props_vm import ANY

ASSUME_API = 'The model of the interface is written from duckVM.h, the comments on the operations and docs/api.md; where comments and code differ on the variables a closure captured, the model follows the code (setfirst, setcar and setelem assign them; what else the comments and the code describe differently is left out).'


def history(case, res):
    b = judge.broken(res)
    if b: return b
    return apigen.compare(case.exp, res.obs)


def api_job(r, calls, scripts, n, opts, label):
    g = apigen.make(r, calls, scripts, n)
    c = runner.Case(g.case(), opts, g.expect)
    c.meta = (g.nops, g.ncalls, g.nested, g.errors)
    return Job([('drv_' + r.choice(ANY), c)], history, label, nontrivial=lambda rs: len(rs[0].get('K')) >= 5, ends=True)


class P18(Prop):
    id = 'P18'
    targets = [drv(c) for c in ANY]
    quick, thorough = 100, 4000
    rule = ('Histories of up to 400 operations of the C interface, on values of every type, with valid and invalid indices, types and keys, run from the host and from inside callbacks, with a collection before every n-th allocation; '
            'after each operation the outcome, what it returned and the whole stack are logged and compared with a model of the interface. Non-trivial: at least 5 operations were logged.')
    assumptions = [ASSUME_API]

    def opts(self, r): return dict(MON, objs=r.choice([2000, 6000]), cobjs=6000, gc=r.choice([0, 1, 1, 2, 7]), leak=1)

    def directed_jobs(self):
        r = random.Random(1)
        jobs = []
        for ops in apigen.FIXED:
            for d in ANY:
                g = apigen.fixed(r, ops)
                jobs.append(Job([('drv_' + d, runner.Case(g.case(), dict(MON, objs=2000, cobjs=6000, gc=1, leak=1), g.expect))], history, 'fixed', nontrivial=lambda rs: len(rs[0].get('K')) >= 5, ends=True))
        return jobs

    def batch(self, k, r, tier):
        return [api_job(r, .04, r.choice([1, 3, 6]), r.choice([8, 25, 60]), self.opts(r), 'operations') for _ in range(24)]


class P19(Prop):
    id = 'P19'
    targets = [drv(c) for c in ANY]
    quick, thorough = 100, 4000
    rule = ('Histories in which the host calls script functions (fixed and variadic, closures that share variables, recursive, applying, failing, wrong argument counts) and these call the host back, which runs further '
            'operations and calls on its part of the stack, up to 4 levels deep, with a collection before every n-th allocation; results, what the callers find afterwards and the heights of all stacks are compared with a model. '
            'Non-trivial: at least 5 operations were logged.')
    assumptions = [ASSUME_API, 'Callbacks take as many arguments as they are given, as the interface demands.']

    def batch(self, k, r, tier):
        return [api_job(r, r.choice([.25, .5]), r.choice([1, 3, 6]), r.choice([4, 10, 25]), dict(MON, objs=r.choice([3000, 6000]), cobjs=6000, gc=r.choice([0, 1, 1, 2, 7]), leak=1), 'calls') for _ in range(24)]


ALL = [P18, P19]
