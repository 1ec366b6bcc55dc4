"""Base class for the checks."""


class Check:
    cases = {"quick": 800, "thorough": 8000}
    rule = ""
    assumptions = []
    minimum = {}
    case_timeout = 400     # wall clock, inconclusive
    cpu_limit = 100        # processor time of one case
    single_line_msg = True

    def setup(self, scratch, seed, tier):
        pass

    def case(self, ctx):
        raise NotImplementedError
