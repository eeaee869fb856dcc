"""Source of MANIFEST.json: python3 tools/manifest.py"""
import json
import os

REAL = "explicit-state model checking of the implementation: "
SEQ = "explicit-state model checking of the implementation, with replay against a reference model: "
CHECKS = {
    "C01": (REAL + "exhaustive enumeration of small networks, result compared with the full joint", ""),
    "C02": (REAL + "exhaustive enumeration of networks x evidence assignments", ""),
    "C03": (SEQ + "breadth-first search over evidence histories to the fixpoint of tree states", ""),
    "C04": (REAL + "exhaustive enumeration of likelihood assignments and orders", ""),
    "C05": (REAL + "exhaustive enumeration of labelled DAGs, structural invariant checked on each", ""),
    "C06": ("stateless model checking: exhaustive enumeration of message orders (controlled neighbour order) on the real code", ""),
    "C07": (SEQ + "all sequences of re-applications and evidence operations up to a depth", ""),
    "C08": (REAL + "exhaustive enumeration of networks and serialisation sequences", ""),
    "C09": (REAL + "exhaustive enumeration of networks and insertion orders through the dictionary and JSON formats", ""),
    "C10": (REAL + "exhaustive enumeration of networks and insertion orders through CSV", ""),
    "C11": (SEQ + "breadth-first search over edge insertions to the fixpoint of reachable graphs", ""),
    "C12": (SEQ + "breadth-first search over graph edit histories to the fixpoint of reachable graphs", ""),
    "C13": ("stateless model checking: every outcome of the controlled random source, weighed exactly", ""),
    "C14": ("stateless model checking: every outcome of the controlled random source at its boundary values; exhaustive enumeration of numberings", ""),
    "C15": (SEQ + "all sequences of sampling calls up to a depth", ""),
    "C16": (REAL + "exhaustive enumeration of data tables, structures and orders", ""),
    "C17": (REAL + "exhaustive enumeration of libpgm descriptions and orders", ""),
    "C18": ("explicit-state model checking: fixpoint of reachable structures under every outcome of the controlled random source", ""),
    "C19": ("stateless model checking: every outcome of the controlled random value counts, every small structure", ""),
    "C20": (SEQ + "exhaustive enumeration of networks, queries and query sequences", ""),
    "C21": (REAL + "exhaustive enumeration of DAGs, pairs and evidence sets against brute-force d-separation", ""),
    "C22": (REAL + "exhaustive enumeration of DAGs and pairs against brute-force path analysis", ""),
    "C23": (REAL + "exhaustive enumeration of small integer Gaussians, observation sets and orders, in exact arithmetic", ""),
    "C24": (SEQ + "every order and ordered partition of every observation set", ""),
    "C25": (REAL + "exhaustive enumeration of small tables and operations", ""),
    "C26": (SEQ + "all interleavings of operations on original and copies up to a depth", ""),
    "C27": (SEQ + "all sequences of edits and applications up to a depth", ""),
    "C28": (REAL + "exhaustive enumeration of networks, export parsed back", ""),
    "C29": (SEQ + "all sequences of read-only operations up to a depth, full dump of the network after each", ""),
    "C30": (SEQ + "breadth-first search over edge insertions to the fixpoint of reachable mixed graphs", ""),
    "C31": ("stateless model checking: scripted standard normal draws, every small Gaussian and observation set", ""),
    "C32": (SEQ + "exhaustive enumeration of shapes, sizes, insertion orders and operations on long networks", ""),
    "C33": (SEQ + "exhaustive enumeration of networks and of every question about each", ""),
    "C34": (SEQ + "every sequence of operations up to a depth on a growing set of networks, trees and dictionaries", ""),
    "C35": ("stateless model checking: controlled scheduler for two threads, every interleaving up to a preemption bound", ""),
    "C36": (SEQ + "every sequence of operations up to a depth on evidence objects, builders and a growing set of trees", ""),
    "C37": ("stateless model checking: fault injection at every crash point (line executed) of every operation, with every continuation", ""),
    "C38": ("exhaustive enumeration of inputs (explicit-state, on the real code) with an independent printer as reference", ""),
    "C39": ("stateless model checking: all operation sequences up to a depth, and long histories, on originals and unpickled objects; enumeration of inputs across processes", ""),
    "C40": ("stateless model checking: all sequences of operations and listener behaviours up to a depth, and long histories", ""),
}
TRUST = (
    "Every execution within the stated bounds (BOUNDS in mc/checks/{f}.py, repeated in the evidence) is run on the "
    "real code and compared with an independent reference written for this check; nothing is sampled within a bound. "
    "Nothing is claimed beyond the bounds. Trusted: the reference in mc/, Python, numpy and networkx."
)
NOTES = {
    "C13": " Random source assumed ideal and uniform.",
    "C23": " The sign of the prior mean is a listed known finding; any other deviation is a violation.",
}


def main():
    checks = [
        {
            "property": k,
            "quick_cmd": f"bash run.sh {k} quick",
            "thorough_cmd": f"bash run.sh {k} thorough",
            "evidence_file": f"evidence/{k}.json",
            "technique": t,
            "level": "model_checking",
            "level_note": TRUST.format(f=k.lower()) + NOTES.get(k, "") + n,
        }
        for k, (t, n) in CHECKS.items()
    ]
    m = {
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "hooks": {
            "guard": "PYBBN_VERIF (reserved; no hook was needed)",
            "enable": "nothing to enable: the checks drive the unmodified code",
            "source_commits": [],
        },
        "checks": checks,
        "not_applicable": [],
        "notes": "See DESIGN.md. known_findings.txt lists defects left and repaired.",
    }
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
