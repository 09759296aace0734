"""Random analysis settings with the documented defaults and interactions."""
import random

QUAL = {"bdd": "Binary Decision Diagram", "zbdd": "Zero-Suppressed Binary Decision Diagram", "mocus": "MOCUS"}


class Options:
    """Abstract settings; .cli() and .project() are their two spellings, .eff() what they mean."""

    def __init__(self, rng, prob=None, small_limit=True, times=True, prime=True, uncertainty=True, approx=True, always_limit=None):
        self.algorithm = rng.choice(["bdd", "zbdd", "mocus", None])
        self.approximation = None
        if approx and rng.random() < 0.45:
            self.approximation = rng.choice(["rare-event", "mcub"])
        self.prime = prime and self.algorithm in ("bdd", None) and not self.approximation and rng.random() < 0.3
        r = rng.random
        self.probability = r() < 0.5 if prob is None else prob
        q = prob is not False
        self.importance = q and r() < 0.4
        self.uncertainty = q and uncertainty and r() < 0.4
        self.ccf = r() < 0.5
        self.time_step = rng.choice([None, None, 0.0, 1000.0, 2190.0, 3000.5, 87.6]) if times else None
        self.sil = q and bool(self.time_step) and r() < 0.6
        self.limit = rng.choice([None, None, 1, 2, 3, 4, 20, 0 if small_limit else 5]) if always_limit is None else always_limit
        self.mission = rng.choice([None, None, 8760.0, 1.0, 100.0, 5000.25, 1e4])
        self.cut_off = rng.choice([None, None, 0.0, 1e-8])
        self.trials = rng.choice([None, 100, 50, 2, 17, 1]) if not self.uncertainty else rng.choice([100, 50, 2, 17, 1])
        self.quantiles = rng.choice([None, 1, 2, 5, 20])
        self.bins = rng.choice([None, 1, 2, 10])
        self.seed = rng.choice([None, 0, 1, 123456, 2147483647])
        if self.time_step and self.mission and self.mission / self.time_step > 200:
            self.time_step = self.mission / 20

    def cli(self, rng=None):
        a = []
        if self.algorithm:
            a.append(["--" + self.algorithm])
        if self.approximation:
            a.append(["--" + self.approximation])
        if self.prime:
            a.append(["--prime-implicants"])
        for k in ("probability", "importance", "uncertainty", "ccf", "sil"):
            if getattr(self, k):
                a.append(["--" + k])
        for k, o in (("time_step", "--time-step"), ("limit", "--limit-order"), ("mission", "--mission-time"), ("cut_off", "--cut-off"), ("trials", "--num-trials"),
                     ("quantiles", "--num-quantiles"), ("bins", "--num-bins"), ("seed", "--seed")):
            v = getattr(self, k)
            if v is not None:
                a.append([o, repr(v) if isinstance(v, float) else str(v)])
        if rng:
            rng.shuffle(a)
        return [x for y in a for x in y]

    def eff(self):
        class E:
            pass
        e = E()
        e.algorithm = self.algorithm or "bdd"
        e.approximation = self.approximation or ("none" if e.algorithm == "bdd" else "rare-event")
        e.prime = self.prime
        e.ccf, e.sil, e.importance, e.uncertainty = self.ccf, self.sil, self.importance, self.uncertainty
        e.probability = self.probability or self.importance or self.uncertainty or self.sil
        e.limit = 20 if self.limit is None else self.limit
        e.mission = 8760.0 if self.mission is None else self.mission
        e.time_step = self.time_step or 0.0
        e.trials = 1000 if self.trials is None else self.trials
        e.quantiles = 20 if self.quantiles is None else self.quantiles
        e.bins = 20 if self.bins is None else self.bins
        e.seed = 0 if self.seed is None else self.seed
        return e


def g(x):
    return "%g" % x


def quantities(e, phases=False):
    """The calculated quantities of the report: [(name, approximation, method, {limit: text})]."""
    out = [("Prime Implicants" if e.prime else "Minimal Cut Sets", None, QUAL[e.algorithm], {"product-order": str(e.limit)})]
    if e.ccf:
        out.append(("Common Cause Failure Analysis", None, None, {}))
    if e.probability:
        lim = {"mission-time": g(e.mission)}
        if e.time_step:
            lim["time-step"] = g(e.time_step)
        out.append(("Probability Analysis", e.approximation, {"none": "Binary Decision Diagram", "rare-event": "Rare-Event Approximation", "mcub": "MCUB Approximation"}[e.approximation], lim))
    if e.sil:
        out.append(("Safety Integrity Levels", None, None, {}))
    if e.importance:
        out.append(("Importance Analysis", None, None, {}))
    if e.uncertainty:
        out.append(("Uncertainty Analysis", None, "Monte Carlo", {"number-of-trials": str(e.trials), "seed": str(e.seed)}))
    return out


def reported(root):
    out = []
    for q in root.find("information").findall("calculated-quantity"):
        m = q.find("calculation-method")
        lim = {}
        if m is not None and m.find("limits") is not None:
            for l in m.find("limits"):
                lim[l.tag] = (l.text or "").strip()
        out.append((q.get("name"), q.get("approximation"), m.get("name") if m is not None else None, lim))
    return out
