import numpy as np
from ..core import Result


class Prop:
    id = title = ""
    technique = "model checking: exhaustive bounded enumeration of executions of the real code against a reference model"
    level_note = ""
    assumptions = ()
    bound = ""

    def cases(self, tier):
        raise NotImplementedError

    def evaluate(self, case):
        raise NotImplementedError

    def execute(self, case):
        """One case, or a history of cases in one process: every ordered pair of them occurs back to back, so that
        anything one call leaves behind meets every other call."""
        if "tour" not in case:
            return self.evaluate(case)
        res, order, held = Result(), [], []
        Result.holding = True
        for k in pairs(len(case["tour"])):
            order.append(k)
            r = self.evaluate(dict(case["common"], **case["tour"][k]))
            for key, out, copy in held:
                res.expect(np.array_equal(out, copy, equal_nan=copy.dtype.kind in "fc"), key, "the result of an earlier call changed (call %d of a history)" % len(order))
            held = (r.held or [])[:400]
            res.states |= r.states
            res.transitions += r.transitions
            res.traces += r.traces
            for f in r.fails:
                res.fail(f["key"], "call %d of a history (after %s): %s" % (len(order), order[-2:-1], f["what"]))
            for n, v in r.notes.items():
                res.note(n, v)
            if res.fails:
                break
            res.state("history", order[-2:])
        Result.holding = False
        res.sample = case
        return res


def new():
    return Result()


def pairs(n):
    """indices 0..n-1 in an order in which every ordered pair (also i, i) is adjacent"""
    for i in range(n):
        yield i
        yield i
        for j in range(i + 1, n):
            yield j
            yield i
