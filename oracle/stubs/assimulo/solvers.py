import assimulo as _a


class CVode:
    def __init__(self, problem=None):
        self.problem = problem

    def simulate(self, tfinal, ncp=0, ncp_list=None):
        ts = list(ncp_list)
        _a.LAST.update(kind='CVODE', problem=self.problem, times=ts, tfinal=tfinal)
        return ts, _a.result(ts, len(self.problem.y0))


class IDA:
    def __init__(self, problem=None):
        self.problem = problem
        if problem is not None and len(problem.y0) != len(problem.yd0):
            raise Exception('The initial values of the states and of the derivatives must have the same length.')

    def make_consistent(self, method):
        pass

    def simulate(self, tfinal, ncp=0, ncp_list=None):
        ts = list(ncp_list)
        _a.LAST.update(kind='IDA', problem=self.problem, times=ts, tfinal=tfinal)
        y = _a.result(ts, len(self.problem.y0))
        return ts, y, 0 * y
