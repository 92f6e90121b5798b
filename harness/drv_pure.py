"""Replays scenarios for the parts of the package that are plain functions and classes."""
import common as c
from common import np, tf


def schedule(job):
    from pysgmcmc.stepsize_schedules import ConstantStepsizeSchedule
    stepsizes = {1: 0.01, 2: 1e-7, 3: 3.25}
    results = []
    for s in job["histories"]:
        slots = [ConstantStepsizeSchedule(stepsizes[v]) for v in s["init"]]
        out = []
        for event in s["hist"]:
            op = event["op"]
            subject = slots[op["slot"] - 1]
            if op["op"] == "next":
                out.append(next(subject))
            elif op["op"] == "iter":
                slots[op["slot"] - 1] = iter(subject)
                out.append(0)
            else:
                args, kwargs = {"nothing": ((), {}), "sample-cost": (([1., 2.], 17.5), {}),
                                "keywords": ((), dict(cost=3., params=[0.1]))}[op["with"]]
                subject.update(*args, **kwargs)
                out.append(0)
        values = dict((v, k) for k, v in stepsizes.items())
        results.append(dict(out=[values.get(o, -1) if o != 0 else 0 for o in out],
                            initial=[values.get(x.initial_value, -1) for x in slots]))
    return dict(id=job["id"], results=results)


HANDLERS = dict(schedule=schedule)


def main():
    job = c.read_job()
    results = []
    for s in job["scenarios"]:
        try:
            results.append(HANDLERS[s["what"]](s))
        except Exception as error:
            import traceback
            results.append(dict(id=s["id"], error=c.describe_error(error), traceback=traceback.format_exc()[-1500:]))
    c.write_result(results)


if __name__ == "__main__":
    main()
