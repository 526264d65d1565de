"""Base of all checks."""
import time

from sim import util


class NoCode(Exception):
    """There is no generated code to run although the schema is valid."""

    def __init__(self, spec, target, kind, detail):
        super().__init__(kind)
        self.spec, self.target, self.kind, self.detail = spec, target, kind, detail

    def violation(self):
        return {'kind': self.kind, 'detail': '{}: {}'.format(self.target, util.clip(self.detail, 1500)),
                'plan': {'schemas': [self.spec], 'no code': self.target}}


class BaseCheck:
    id = None
    module = None
    level = 'exploration'
    tasks = {'quick': 200, 'thorough': 4000}
    cap_s = {'quick': 100, 'thorough': 1500}
    # environments of the workers; task i runs in variant i % len(variants)
    variants = [{'PYTHONHASHSEED': '1'}]
    workers = 8
    rule = ''
    assumptions = []
    components = {}
    counted = 'runs'
    # whether the property says that there is code for every valid schema
    needs_code = False

    def __init__(self):
        self._log = []

    def log(self, *parts):
        self._log.append(util.digest(list(parts)))

    def take_log(self):
        text = util.digest(self._log)
        self._log = []
        return text

    def worker_setup(self):
        """Load the code under test once; simulated processes are forked from this pristine state."""
        import mapry.main  # pylint: disable=unused-import
        import sim.proc  # pylint: disable=unused-import
        import gc
        gc.collect()
        gc.freeze()

    def prepare(self, tier, scratch):
        """Engine-side preparation before workers start; returns extra environment for the workers."""
        return {}

    def finish(self):
        """Engine-side clean-up."""

    def explore(self, seed, index, tier, stats):
        """Generate and execute the simulated runs of one task -> list of violations, each with its plan."""
        raise NotImplementedError

    def run(self, plan, stats):
        """Execute one explicit plan -> list of {'kind', 'detail', ...}"""
        raise NotImplementedError

    def run_any(self, plan, stats):
        """run(), also for the plan of a NoCode"""
        if 'no code' in plan:
            from checks.c11 import code_of
            return code_of(plan, stats)
        try:
            return self.run(plan, stats)
        except NoCode as exc:
            return [exc.violation()] if self.needs_code else []

    def reductions(self, plan):
        """Smaller plans, most promising first."""
        return iter(())

    def smaller(self, plan):
        if 'no code' not in plan:
            yield from self.reductions(plan)
            return
        from sim.genproc import schema_reductions
        for mapping in schema_reductions(plan['schemas'][0]['mapping']):
            yield dict(plan, schemas=[dict(plan['schemas'][0], mapping=mapping)])

    def shrink(self, plan, kind, finding, budget, stats):
        """Greedy minimisation while a violation of the same kind (and the same finding, if any) persists."""
        best = None
        for v in self.run_any(plan, stats):
            if (v['kind'], v.get('finding')) == (kind, finding):
                best = dict(v, plan=plan)
                break
        if best is None:
            return None
        deadline = time.monotonic() + budget
        progress = True
        while progress and time.monotonic() < deadline:
            progress = False
            for smaller in self.smaller(best['plan']):
                if time.monotonic() > deadline:
                    break
                try:
                    found = self.run_any(smaller, stats)
                except Exception:  # pylint: disable=broad-except
                    continue
                match = [v for v in found if (v['kind'], v.get('finding')) == (kind, finding)]
                if match:
                    best = dict(match[0], plan=smaller)
                    progress = True
                    break
        return best
