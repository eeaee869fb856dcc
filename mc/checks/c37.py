"""C37: every operation interrupted before every line of the library it executes (crash points), then
repeated or followed by another one, against the same done without the interruption."""
import copy
import itertools
import json
import os
import shutil
import tempfile

from mc import evid, nets, sched, world
from mc.checks import c35

PROPERTY = "C37"
CHUNK = 1
WAYS = 8  # cases per operation
BOUNDS = {
    "quick": "13 kinds of work, and 6 changes of evidence from 3 evidence settings each followed by each of 7 ways to go on, "
    "interrupted once: before every line of the library executed on a network with one clique, and before every call on a network with two; 5 kinds of requests that cannot be met, from each setting and followed by each way to go on",
    "thorough": "before every line on the network with two cliques as well; every change of evidence interrupted twice in succession at every pair of calls",
}
ASSUMPTIONS = [
    "an interruption (KeyboardInterrupt) arrives between lines of Python code of the library (CPython: between bytecodes)",
    "edits of a network and direct additions to trees are not covered: they are immediate, and promised nothing",
]


class Interrupt(KeyboardInterrupt):
    pass


def interrupted(work, at, event="line"):
    """Runs work, interrupted before event number `at`: whether it was."""

    def hook():
        raise Interrupt()

    t = sched.Thread(work, sched.library(), event)
    t.at, t.hook = at, hook
    t()
    if t.error is not None and not t.reached:
        raise t.error
    return t.reached


class Work(c35.Work):
    """Work that leaves its objects as they are, so that it can be repeated."""

    def sample(self):
        from pybbn.sampling.sampling import LogicSampler

        sampler = LogicSampler(nets.build(self.spec))
        ids = self.ids
        return lambda: [sampler.get_samples(n_samples=2, evidence={ids[0]: nets.values_of(self.spec, 0)[1]}, seed=3), sampler.get_samples(n_samples=1, seed=4)]

    def written(self):
        """Exports to the same files again."""
        from pybbn.graph.dag import Bbn

        bbn = nets.build(self.spec)

        def work():
            os.makedirs(SCRATCH, exist_ok=True)
            result = []
            for name in ("csv", "json"):
                path = os.path.join(SCRATCH, "n." + name)
                (Bbn.to_csv if name == "csv" else Bbn.to_json)(bbn, path)
                result.append(world.snapshot((Bbn.from_csv if name == "csv" else Bbn.from_json)(path)))
            return result

        return work

    def again(self):
        """Initialisation of the same restored tree again."""
        from pybbn.graph.jointree import JoinTree
        from pybbn.pptc.inferencecontroller import InferenceController

        bbn = nets.build(self.spec)
        back = JoinTree.from_dict(JoinTree.to_dict(InferenceController.apply(bbn), bbn))

        def work():
            InferenceController.apply_from_serde(back)
            seen = [c35.marginals(back, self.spec)]
            back.update_evidences([self.evidence(back, 0, ("OBSERVATION", {1: 1.0}))])
            return seen + [c35.marginals(back, self.spec)]

        return work

    def causal(self):
        """Questions to the same estimator."""
        from pybbn.causality.ace import Ace

        ace = Ace(nets.build(self.spec))
        (p, c) = self.spec["edges"][0]
        return lambda: [ace.get_ace(self.names[p], self.names[c], "s1"), ace.get_ace(self.names[c], self.names[p], "s0")]

    def ask(self):
        """Questions to a tree."""
        jt = self.tree()
        jt.update_evidences([self.evidence(jt, 0, ("VIRTUAL", {0: 0.5, 1: 0.9}))])
        return lambda: [jt.get_posteriors(), c35.marginals(jt, self.spec)]


KINDS = ["apply", "reapply", "copy", "restore", "again", "ask", "formats", "written", "learn", "causal", "paths", "gaussian", "sample"]
SCRATCH = None
NETS = {2: c35.MINE[2], 3: nets.spec(3, [[0, 1], [1, 2]], "generic", [2, 2, 2], ids=[10, 2, 33])}  # one clique; two cliques

# ---------------------------------------------------------------- evidence

STARTS = [{}, {0: ("OBSERVATION", {0: 1.0})}, {0: ("VIRTUAL", {0: 0.5, 1: 0.9}), "last": ("OBSERVATION", {1: 1.0})}]
CHANGES = ["observe", "other", "soft", "both", "unobserve", "clear"]
AFTERWARDS = ["same", "clear", "elsewhere", "overwrite", "reapply", "copy", "restore"]


class Tree:
    def __init__(self, spec, start, change):
        from pybbn.pptc.inferencecontroller import InferenceController

        self.spec, self.change = spec, change
        self.ids, self.last = nets.ids_of(spec), spec["n"] - 1
        self.bbn = nets.build(spec)
        self.jt = InferenceController.apply(self.bbn)
        self.like = {}
        first = {(self.last if i == "last" else i): x for i, x in STARTS[start].items()}
        if first:
            self.put(self.jt, first)
            self.like = self.meaning(first)
        self.given = {
            "observe": {0: ("OBSERVATION", {1: 1.0})},
            "other": {self.last: ("OBSERVATION", {0: 1.0})},
            "soft": {0: ("VIRTUAL", {0: 0.9, 1: 0.3})},
            "both": {0: ("OBSERVATION", {1: 1.0}), self.last: ("VIRTUAL", {0: 0.2, 1: 0.7})},
            "unobserve": {0: ("UNOBSERVE", {0: 1.0, 1: 1.0})},
            "clear": {i: ("UNOBSERVE", {0: 1.0, 1: 1.0}) for i in range(spec["n"])},
        }[change]

    def meaning(self, given):
        return {i: evid.meaning(*x, self.spec["arity"][i]) for i, x in given.items()}

    def put(self, jt, given):
        jt.update_evidences([evid.make(jt, self.spec, i, x) for i, x in given.items()])

    def work(self):
        """The change of evidence (prepared, so that only the change itself is interrupted)."""
        jt = self.jt
        if self.change == "clear":
            return jt.unobserve_all
        if self.change == "unobserve":
            node = jt.get_bbn_node(self.ids[0])
            return lambda: jt.unobserve([node])
        items = [evid.make(jt, self.spec, i, x) for i, x in self.given.items()]
        if self.change == "observe":
            return lambda: jt.set_observation(items[0])
        return lambda: jt.update_evidences(items)

    def possible(self, changed):
        """The evidence that may be in force: every value of the variables that were being
        changed has its old or its new likelihood."""
        old, new = self.like, self.meaning(self.given)
        per = []
        for i, vec in new.items():
            before = old.get(i, [1.0] * len(vec))
            per.append([(i, list(c)) for c in itertools.product(*[sorted({a, b}) for a, b in zip(before, vec)])])
        for chosen in itertools.product(*per):
            like = {**old, **dict(chosen)}
            like.update(changed)
            yield like

    def go_on(self, how):
        """Goes on after the interruption: the tree to look at and the evidence that may be in force in it."""
        from pybbn.graph.jointree import JoinTree
        from pybbn.pptc.inferencecontroller import InferenceController

        jt = self.jt
        if how == "same":
            if self.change in ("clear", "unobserve"):
                self.work()()
            else:
                self.put(jt, self.given)
            return jt, [{**self.like, **self.meaning(self.given)}]
        if how == "clear":
            jt.unobserve_all()
            return jt, [{}]
        if how == "elsewhere":
            free = [i for i in range(self.spec["n"]) if i not in self.given] or [self.last]
            more = {free[-1]: ("VIRTUAL", {0: 0.6, 1: 0.7})}
            self.put(jt, more)
            return jt, list(self.possible(self.meaning(more)))
        if how == "overwrite":
            more = {i: ("VIRTUAL", {0: 0.4, 1: 0.8}) if i else ("OBSERVATION", {0: 1.0}) for i in range(self.spec["n"])}
            self.put(jt, more)
            return jt, [self.meaning(more)]
        if how == "reapply":
            return InferenceController.reapply(jt, {}), [{}]
        if how == "copy":
            other = copy.deepcopy(jt)
            other.unobserve_all()
            return other, [{}]
        d = json.loads(json.dumps(JoinTree.to_dict(jt, self.bbn)))
        return InferenceController.apply_from_serde(JoinTree.from_dict(d)), [{}]

    def check(self, rec, jt, likes, **detail):
        got = nets.observed_marginals(jt, self.spec)
        joint = nets.joint(self.spec)
        wants = [nets.marginals(nets.weigh(joint, like)) for like in likes]
        if any(w is None for w in wants):
            rec.count("possibly_impossible_evidence")
            return
        rec.trace()
        rec.outcome([[round(float(x), 9) for x in v] for v in got])
        for w in wants:
            if all(nets.alike(a, b, 1e-9) for g, v in zip(got, w) for a, b in zip(g, v)):
                return
        nets.compare_marginals(rec, got, wants[-1], self.spec, candidates=len(wants), **detail)


BAD = ["value", "second value", "observe", "node", "unobserve"]


def refused(case, spec, rec):
    """Requests that cannot be met are refused as a whole."""
    from pybbn.graph.jointree import EvidenceBuilder, EvidenceType
    from pybbn.graph.node import BbnNode
    from pybbn.graph.variable import Variable

    foreign = BbnNode(Variable(987654, "foreign", ["s0", "s1"]), [0.5, 0.5])
    for start, bad, kind in itertools.product(range(len(STARTS)), BAD, ("OBSERVATION", "VIRTUAL", "FINDING", "UNOBSERVE")):
        for how in [None] + AFTERWARDS:
            t = Tree(spec, start, "both")
            jt = t.jt

            def build(node, value):
                return EvidenceBuilder().with_node(node).with_type(EvidenceType[kind]).with_evidence(value, 1.0).build()

            good = evid.make(jt, spec, 0, ("OBSERVATION", {1: 1.0}))
            last = jt.get_bbn_node(t.ids[t.last])
            request = {
                "value": lambda: jt.update_evidences([build(last, "no such value")]),
                "second value": lambda: jt.update_evidences([good, build(last, "no such value")]),
                "observe": lambda: jt.set_observation(build(last, "no such value")),
                "node": lambda: jt.update_evidences([good, build(foreign, "s0")]),
                "unobserve": lambda: jt.unobserve([jt.get_bbn_node(t.ids[0]), foreign]),
            }[bad]
            point = {"start": start, "refused": bad, "type": kind, "then": how}
            rec.step(2)
            rec.state((case["n"], start, bad, kind, how))
            try:
                request()
                rec.count("requests_not_refused")
                continue
            except Exception:
                pass
            if how is None:
                t.check(rec, jt, [t.like], **point)
                continue
            old = t.like
            try:
                jt, likes = t.go_on(how)
            except Exception as e:
                rec.fail(f"after a refused request, going on raised {type(e).__name__}: {e}", **point)
            if how == "elsewhere":
                likes = [like for like in likes if all(like.get(i, [1.0, 1.0]) == old.get(i, [1.0, 1.0]) for i in t.given if i != t.last)]
            t.check(rec, jt, likes, **point)


# ---------------------------------------------------------------- exploration


def cases(tier):
    for n in (2, 3):
        yield {"n": n, "refused": True}
    for n, event in ((2, "line"), (3, "call")) + (((3, "line"),) if tier == "thorough" else ()):
        ways = WAYS if n == 2 or event == "call" else 4 * WAYS
        for way in range(ways):
            for kind in KINDS:
                yield {"n": n, "kind": kind, "event": event, "way": way, "ways": ways}
            for start in range(len(STARTS)):
                for change in CHANGES:
                    yield {"n": n, "start": start, "change": change, "event": event, "way": way, "ways": ways}
    if tier == "thorough":
        for way in range(4 * WAYS):
            for start in range(len(STARTS)):
                for change in CHANGES:
                    yield {"n": 2, "start": start, "change": change, "event": "call", "way": way, "ways": 4 * WAYS, "twice": True}


def run(case, rec):
    global SCRATCH
    spec = NETS[case["n"]]
    SCRATCH = tempfile.mkdtemp(prefix="verif-c37-")
    try:
        (refused if "refused" in case else repeated if "kind" in case else evidence)(case, spec, rec)
    finally:
        shutil.rmtree(SCRATCH)


def repeated(case, spec, rec):
    make = lambda: getattr(Work(spec), case["kind"])()
    want = make()()
    rec.outcome(repr(want))
    at = case["way"] + 1
    while True:
        work = make()
        point = {"kind": case["kind"], "interrupted_before": at, "event": case["event"]}
        reached = interrupted(work, at, case["event"])
        try:
            got = work()
        except Exception as e:
            rec.fail(f"repeated after an interruption, it raised {type(e).__name__}: {e}", **point)
        rec.step(2)
        rec.trace()
        rec.state((case["n"], case["kind"], at))
        rec.count("crash_points")
        if not sched.alike(got, want):
            rec.fail("repeated after an interruption, it has another result", got=repr(got)[:2000], want=repr(want)[:2000], **point)
        if not reached:
            break
        at += case["ways"]
    if case["way"] == 0:
        rec.sample({"network": spec, "kind": case["kind"], "lines": at})


def evidence(case, spec, rec):
    start, change = case["start"], case["change"]
    event = case["event"]
    at = case["way"] + 1
    while True:
        again = 1 if case.get("twice") else None
        reached = back = False
        while True:
            for how in AFTERWARDS:
                t = Tree(spec, start, change)
                point = {"start": start, "change": change, "interrupted_before": at, "again_before": again, "event": event, "then": how}
                reached = interrupted(t.work(), at, event)
                if again:
                    back = interrupted(t.work(), again, event)
                try:
                    jt, likes = t.go_on(how)
                    t.check(rec, jt, likes, **point)
                    # and once more, from there
                    more = {t.last: ("OBSERVATION", {1: 1.0})}
                    t.put(jt, more)
                    t.check(rec, jt, [{**like, **t.meaning(more)} for like in likes], later=True, **point)
                except Exception as e:
                    if type(e).__name__ == "Violation":
                        raise
                    rec.fail(f"after an interruption, going on raised {type(e).__name__}: {e}", **point)
                rec.step(4)
                rec.state((case["n"], start, change, at, again, how))
            rec.count("crash_points")
            if not again or not back:
                break
            again += 1
        if not reached:
            break
        at += case["ways"]
    if case["way"] == 0:
        rec.sample({"network": spec, "start": start, "change": change, "lines" if event == "line" else "calls": at})
