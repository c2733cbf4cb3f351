"""
Bounded exhaustive explorer used by every check of this directory.

A check enumerates a finite space completely: a *state* is a canonical input /
object configuration of the real library, a *transition* is one execution of a
real library operation from such a state.  After each transition the oracle (a
plain reference model, or an invariant) is evaluated.  Nothing is sampled.

Outcome protocol: exit 0 (held), exit 1 + "VIOLATION property=.. replay=..".
"""
import contextlib
import hashlib
import io
import json
import os
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CASE_TIMEOUT = 150
# an exploration is cut (and says so: "exhaustive": false) before the time
# a command is given runs out
DEADLINE = {"quick": 720, "thorough": 840}


class Mismatch(Exception):
    """The implementation disagrees with the oracle. `kind` goes in the
    signature, `detail` only in the report."""

    def __init__(self, kind, detail=""):
        Exception.__init__(self, "{}: {}".format(kind, detail))
        self.kind = kind
        self.detail = detail


class Hang(BaseException):
    pass


def _alarm(signum, frame):
    raise Hang()


def expect(cond, kind, detail=""):
    if not cond:
        raise Mismatch(kind, detail() if callable(detail) else detail)


class Checker(object):
    def __init__(self, pid, tier, seed, only=None):
        self.pid = pid
        self.tier = tier
        self.thorough = tier == "thorough"
        self.seed = seed
        self.only = only
        self.states = set()
        self.transitions = 0
        self.validated = 0
        self.outcomes = set()
        self.samples = []
        self.violations = []
        self.known_hits = {}
        self.space = {}
        self.t0 = time.time()
        self.hangs = 0
        self.max_viol = int(os.environ.get("VERIF_MAXVIOL", "20"))
        self.known = load_known(pid)
        self._group_seen = {}
        self.assumptions = []
        self.extra = {}

    # -- exploration -----------------------------------------------------
    def state(self, key):
        """Register a canonical state; True if it was not seen before."""
        h = hashlib.blake2b(repr(key).encode(), digest_size=12).digest()
        if h in self.states:
            return False
        self.states.add(h)
        return True

    def outcome(self, key):
        self.outcomes.add(hashlib.blake2b(repr(key).encode(),
                                          digest_size=8).digest())

    def case(self, sig, desc, fn, state=None):
        """
        Execute one transition.  `sig` names the operation and the class of
        input (stable, used by the known-findings file), `desc` fully
        describes the concrete case, `fn` runs the real code and the oracle;
        it raises Mismatch (or anything else) when they disagree.
        """
        if self.only is not None and not (self.only.startswith(sig)
                                          or sig.startswith(self.only)):
            return None
        if time.time() - self.t0 > DEADLINE[self.tier] and \
                sig != "building the cases":
            raise Enough()
        self.transitions += 1
        self.state(state if state is not None else (sig, desc))
        group = sig.split("|")[0]
        self.space[group] = self.space.get(group, 0) + 1
        if self._group_seen.get(group, 0) < 1 and len(self.samples) < 12:
            self._group_seen[group] = 1
            self.samples.append({"op": sig, "case": str(desc)[:300]})
        buf = io.StringIO()
        signal.alarm(CASE_TIMEOUT)
        try:
            with contextlib.redirect_stdout(buf):
                res = fn()
            signal.alarm(0)
            self.validated += 1
            if res is not None:
                self.outcome(res)
            return res
        except Mismatch as e:
            signal.alarm(0)
            self._fail(sig + "|" + e.kind, desc, e.detail,
                       traceback.format_exc())
        except Hang:
            self.hangs += 1
            self._fail(sig + "|hang", desc, "no answer in {} s"
                       .format(CASE_TIMEOUT), "")
        except (KeyboardInterrupt, SystemExit):
            raise
        except Exception as e:
            signal.alarm(0)
            self._fail(sig + "|raises " + type(e).__name__, desc, str(e),
                       traceback.format_exc())
        finally:
            signal.alarm(0)
        return None

    def _fail(self, sig, desc, detail, tb):
        if sig in self.known:
            self.known_hits.setdefault(sig, str(desc))
            return
        self.violations.append({"sig": sig, "case": str(desc),
                                "detail": str(detail)[:2000],
                                "traceback": tb[-3000:]})
        if len(self.violations) >= self.max_viol or self.hangs > 3:
            raise Enough()

    # -- report ----------------------------------------------------------
    def finish(self, level, complete):
        wall = time.time() - self.t0
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = {"exhaustive": bool(complete) and self.only is None,
               "distinct_outcomes": len(self.outcomes),
               "transitions_per_operation": self.space,
               "samples": self.samples or [{"op": "none", "case": "none"}]}
        cov.update(self.extra)
        if level == "model_checking":
            cov.update(states=len(self.states), transitions=self.transitions,
                       traces_validated_against_impl=self.validated)
        else:
            cov.update(evaluations=self.transitions,
                       distinct_nontrivial=len(self.states),
                       rule="every point of the finite product space listed in"
                            " transitions_per_operation is executed on the "
                            "real code; a case is distinct and non-trivial "
                            "when its canonical (operation, input, fault "
                            "point) differs from all others")
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed,
              "level": level, "coverage": cov, "wall_s": round(wall, 3),
              "assumptions": self.assumptions,
              "violations": len(self.violations)}
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"),
                  "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for sig, desc in sorted(self.known_hits.items()):
            print("KNOWN-FINDING: property={} {} [{}]"
                  .format(self.pid, self.known[sig], sig))
        print("{}: states={} transitions={} validated={} outcomes={} "
              "violations={} wall={:.1f}s".format(
                  self.pid, len(self.states), self.transitions,
                  self.validated, len(self.outcomes), len(self.violations),
                  wall))
        if self.violations:
            d = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, self.pid + ".json")
            with open(path, "w") as f:
                json.dump({"property": self.pid,
                           "replay_cmd": "cd /verif && ./check {} {} --sig "
                           "'<sig>'".format(self.pid, self.tier),
                           "violations": self.violations}, f, indent=1)
            sigs = {}
            for v in self.violations:
                sigs.setdefault(v["sig"], v)
            for s, v in list(sigs.items())[:12]:
                print("  - {} :: {} :: {}".format(s, v["case"][:300],
                                                  v["detail"][:300]))
            print("VIOLATION property={} replay={}".format(self.pid, path))
            return 1
        return 0


class Enough(Exception):
    pass


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.jsonl")
    res = {}
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if not line or line.startswith("#") or line.startswith(
                        "fixed:"):
                    continue
                d = json.loads(line)
                if d["property"] == pid:
                    res[d["sig"]] = d["what"]
    return res


def main(argv):
    import importlib
    pid = argv[1]
    tier = argv[2] if len(argv) > 2 and argv[2] in ("quick", "thorough") \
        else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    only = None
    if "--sig" in argv:
        only = argv[argv.index("--sig") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.path.insert(0, REPO)
    sys.path.insert(1, VERIF)
    sys.dont_write_bytecode = True
    warnings.simplefilter("ignore")
    os.environ.setdefault("MPLBACKEND", "Agg")
    import numpy as np
    np.seterr(all="ignore")
    np.random.seed(seed)
    import IMTreatment
    src = os.path.realpath(os.path.dirname(IMTreatment.__file__))
    if not src.startswith(os.path.realpath(REPO)):
        print("wrong IMTreatment imported: " + src)
        return 2
    signal.signal(signal.SIGALRM, _alarm)
    mod = importlib.import_module("checks." + pid.lower())
    ck = Checker(pid, tier, seed, only)
    complete = True
    try:
        mod.run(ck)
    except Enough:
        complete = False
    except Exception as err:
        # the library refused what a case is made of
        complete = False
        import traceback
        where = traceback.format_exc().splitlines()[-8:]

        def again(err=err):
            raise err
        try:
            ck.case("building the cases", where, again)
        except Enough:
            pass
    warnings.simplefilter("ignore")
    return ck.finish(getattr(mod, "LEVEL", "model_checking"), complete)


