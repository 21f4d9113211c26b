"""Obligation bookkeeping for one property."""


class Report:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.rules = {}       # rule id -> text
        self.counts = {}      # rule id -> obligations discharged or violated
        self.viol = []        # (key, message, where)
        self.samples = {}     # rule id -> a few instances
        self.seen = set()
        self.open = []        # (instance, reason): constructs the analysis could not judge

    def rule(self, rid, text):
        self.rules[rid] = text
        self.counts.setdefault(rid, 0)
        self.samples.setdefault(rid, [])

    def ob(self, rid, instance, ok, msg="", where=""):
        """one obligation: `instance` names the construct (no line numbers), where = file:line"""
        self.counts[rid] += 1
        if len(self.samples[rid]) < 400:
            self.samples[rid].append(instance)
        if not ok:
            key = f"{rid}:{instance}"
            if key not in self.seen:
                self.seen.add(key)
                self.viol.append((key, msg, where))
        return ok

    def floor(self, rid, least, what=""):
        """vacuity guard: the rule must have found at least `least` instances"""
        n = self.counts.get(rid, 0)
        if n < least:
            self.undecided(rid, f"floor({what or 'instances'})", f"rule {rid} found only {n} instances, at least {least} expected: the code it judges is gone or no longer recognised")

    def undecided(self, rid, instance, why, where=""):
        """a construct of a shape the analysis does not model: not judged, and said so in the evidence"""
        self.open.append((f"{rid}:{instance}", why, where))
