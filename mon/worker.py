"""One shard of a check: runs cases of a property against the real code."""
import hashlib
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback


class Violation(Exception):
    """The property does not hold in the execution just observed."""


class Hang(Violation):
    """A call of the code under test used up its CPU time."""


class Inconclusive(Exception):
    """The environment kept the monitor from deciding (no verdict)."""


class Ctx:
    """What a case reports to: counters, samples, distinct signatures."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.counters, self.maxima, self.known = {}, {}, {}
        self.distinct, self.samples = set(), []
        self.evaluations = 0
        self.trace = {}
        self.shard, self.shards = 0, 1

    def count(self, name, by=1):
        self.counters[name] = self.counters.get(name, 0) + by

    def most(self, name, value):
        self.maxima[name] = max(self.maxima.get(name, value), value)

    def evaluated(self, by=1):
        self.evaluations += by

    def nontrivial(self, *signature):
        text = repr(signature).encode()
        self.distinct.add(int.from_bytes(hashlib.blake2b(text, digest_size=6).digest(), "big"))

    def sample(self, value, limit=2):
        if len(self.samples) < limit:
            self.samples.append(value)

    def finding(self, name, text):
        self.known.setdefault(name, text)

    def fail(self, what):
        raise Violation(what)

    def check(self, condition, what, *args):
        if not condition:
            raise Violation(what.format(*args) if args else what)


def main():
    prop, tier, seed, shard, shards, out = sys.argv[1:7]
    seed, shard, shards = int(seed), int(shard), int(shards)
    only = int(sys.argv[7]) if len(sys.argv) > 7 else None
    import clubs

    repo = os.path.realpath(os.environ["CLUBS_REPO"])
    assert os.path.realpath(clubs.__file__).startswith(repo + os.sep), clubs.__file__
    from mon import plan

    spec = plan.PROPS[prop]
    module = importlib.import_module("mon.props." + spec["module"])
    ctx = Ctx(prop, tier, seed)
    ctx.shard, ctx.shards = shard, shards
    case = getattr(module, spec["case"])
    cases = spec["cases"][tier]
    cap = spec["cap"][tier]
    limit = spec.get("cpu", 60)

    def alarm(signum, frame):
        raise Hang(f"no progress within {limit} s of CPU time")

    signal.signal(signal.SIGVTALRM, alarm)
    violations, inconclusive, capped = [], [], False
    start = time.time()
    indices = [only]
    if only is None:
        # every worker meets every kind of case
        indices = (i for b in range(-(-cases // shards))
                   for i in [b * shards + (shard + b) % shards] if i < cases)
    for index in indices:
        if time.time() - start > cap:
            capped = True
            break
        random.seed(f"global {seed} {prop} {index}")
        rng = random.Random(f"{seed} {prop} {index}")
        ctx.trace = {}
        signal.setitimer(signal.ITIMER_VIRTUAL, limit)
        try:
            case(rng, index, ctx)
        except Inconclusive as exc:
            inconclusive.append(f"case {index}: {exc}")
            if len(inconclusive) > 3:
                break
        except Violation as exc:
            violations.append({"case": index, "what": str(exc), "trace": ctx.trace})
        except Exception as exc:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            text = traceback.format_exc().strip().splitlines()[-12:]
            violations.append({
                "case": index, "what": f"unexpected {type(exc).__name__}: {exc}",
                "traceback": text, "trace": ctx.trace})
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        if violations:
            break
    close = getattr(module, "close", None)
    if close:
        close()
    with open(out + ".tmp", "w") as file:
        json.dump({
            "evaluations": ctx.evaluations, "counters": ctx.counters,
            "maxima": ctx.maxima, "samples": ctx.samples, "known": ctx.known,
            "distinct": list(ctx.distinct), "violations": violations,
            "inconclusive": inconclusive, "capped": capped}, file, default=str)
    os.replace(out + ".tmp", out)
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    # one identity of the classes above, however this file was started
    from mon import worker

    worker.main()
