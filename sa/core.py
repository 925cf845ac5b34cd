"""Obligations, evidence, known findings and the exit protocol."""
import json
import os
import signal
import sys
import threading
import time
import traceback

from . import poly
from .poly import Rat
from .values import Undecided, AbsRaise, Arr
from .interp import Interp, Repo, PKG
from .mic import Malformed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")


class TimeUp(BaseException):
    """one evaluation takes too long"""


def _alarm(sig, frm):
    raise TimeUp()


class Check:
    def __init__(self, pid, tier, seed, repo):
        self.pid, self.tier, self.seed, self.repo = pid, tier, seed, repo
        self.obs = []
        self.functions = set()
        self.calls = 0
        self.joins = 0
        self.natives = set()
        self.unmodelled = set()
        self.rules = set()
        self.sites = 0
        self.assumptions = []
        self.deep = tier == "thorough"
        self.t0, self.timing = time.time(), False

    # -------------------------------------------------------------- contexts
    def interp(self):
        ip = Interp(self.repo)
        self._ips = getattr(self, "_ips", [])
        self._ips.append(ip)
        return ip

    def absorb(self):
        for ip in getattr(self, "_ips", []):
            self.functions |= ip.stats["functions"]
            self.calls += ip.stats["calls"]
            self.joins += ip.stats["joins"]
            self.natives |= ip.stats["natives"]
            self.unmodelled |= ip.stats["unmodelled"]
        self._ips = []

    # ----------------------------------------------------------- obligations
    def ob(self, key, ok, rule, detail="", where=None, proof=True):
        self.rules.add(rule)
        self.obs.append({"key": key, "ok": ok, "rule": rule,
                         "detail": str(detail)[:1200], "where": where,
                         "proof": proof})
        return ok

    def eq(self, key, a, b, rule, where=None, detail=""):
        """a == b as normal forms"""
        try:
            a, b = Rat.of(a), Rat.of(b)
        except TypeError:
            from .values import Opaque
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                if a == b:
                    return self.ob(key, True, rule, detail, where)
                if isinstance(a, Opaque) and a.desc == "uninit" or \
                        isinstance(b, Opaque) and b.desc == "uninit":
                    return self.ob(key, False, rule,
                                   "%s element is never written; %s" %
                                   (key, detail), where)
                return self.ob(key, None, rule, "%r vs %r" % (a, b), where)
            return self.ob(key, None, rule, "%r vs %r" % (a, b), where)
        same = a == b
        ok, wit = (True, None) if same else poly.equal(a, b, self.seed)
        d = detail
        if ok is False:
            d = "%s%s != %s" % (detail + ": " if detail else "", a, b)
            if wit:
                d += " ; differs at %s (%.6g vs %.6g)" % (
                    {k: round(v, 4) for k, v in sorted(wit[2].items())[:14]},
                    wit[0], wit[1])
        return self.ob(key, ok, rule, d, where, proof=same)

    def eq_arr(self, ip, key, a, b, rule, where=None, detail=""):
        """element-wise equality of two array values (b may be a list)"""
        ca = ip.cells(a) if isinstance(a, Arr) else [a]
        cb = ip.cells(b) if isinstance(b, Arr) else (
            list(b) if isinstance(b, (list, tuple)) else [b])
        sa = a.shape if isinstance(a, Arr) else ()
        sb = b.shape if isinstance(b, Arr) else None
        if sb is not None and tuple(sa) != tuple(sb):
            return self.ob(key, False, rule, "shape %s != %s" % (sa, sb),
                           where)
        if len(ca) != len(cb):
            return self.ob(key, False, rule, "size %d != %d" %
                           (len(ca), len(cb)), where)
        ok = True
        for i, (x, y) in enumerate(zip(ca, cb)):
            r = self.eq("%s[%d]" % (key, i), x, y, rule, where, detail)
            if r is not True:
                ok = r if ok is True or r is False else ok
        return ok

    def dangling(self, ip):
        """stand-ins whose function is not in the repository any more"""
        out = []
        for k in ip.hooks:
            if not isinstance(k, str) or ":" in k or "." not in k:
                continue
            ps = k.split(".")
            for i in range(len(ps) - 1, 0, -1):
                if PKG + "." + ".".join(ps[:i]) in self.repo.modules:
                    try:
                        ip.get(".".join(ps[:i]), ".".join(ps[i:]))
                        break
                    except (Undecided, AbsRaise):
                        pass
            else:
                out.append(k)
        return out

    def attempt(self, key, f, rule="executes", where=None):
        """Run an abstract evaluation; an abstract raise on all paths is a
        violation of `rule`, a construct outside the domain is undecided.
        So is everything found with a stand-in that stands for nothing."""
        n, m = len(self.obs), len(getattr(self, "_ips", []))
        r = self._timed(key, f, rule, where)
        new = self.obs[n:]
        if any(o["ok"] is False for o in new):
            gone = [d for ip in self._ips[m:] or getattr(
                self, "_ips", [])[-1:] for d in self.dangling(ip)]
            if gone:
                for o in new:
                    if o["ok"] is False:
                        o["ok"] = None
                        o["detail"] = "undecided: no function %s; %s" % (
                            gone[0], o["detail"])
        return r

    def limit(self):
        t = time.time() - self.t0
        return 150 if t < 300 else 5 if t < 650 else 0.5

    def _timed(self, key, f, rule, where):
        if self.timing or threading.current_thread() is not \
                threading.main_thread():
            return self._attempt(key, f, rule, where)
        old = signal.signal(signal.SIGALRM, _alarm)
        self.timing = True
        signal.setitimer(signal.ITIMER_REAL,
                         self.limit())
        try:
            return self._attempt(key, f, rule, where)
        except TimeUp:
            self.ob(key, None, rule, "undecided: takes too long", where)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
            self.timing = False

    def _attempt(self, key, f, rule, where):
        try:
            return f()
        except AbsRaise as e:
            self.ob(key, False, rule, "raises %s on every path" % e,
                    e.where or where)
        except Malformed as e:
            self.ob(key, False, rule, str(e), where)
        except Undecided as e:
            self.ob(key, None, rule, "undecided: %s" % e, e.where or where)
        except (poly.Blowup, RecursionError, ZeroDivisionError) as e:
            self.ob(key, None, rule, "undecided: %r" % e, where)
        except (AttributeError, TypeError, KeyError, IndexError,
                AssertionError, ValueError) as e:
            # the shape of a value is not what this check's model expects:
            # outside the domain, never an alarm
            tb = traceback.extract_tb(sys.exc_info()[2])[-1]
            if os.environ.get("SA_DEBUG"):
                traceback.print_exc()
            self.ob(key, None, rule, "undecided: analyser %s: %s at %s:%d" %
                    (type(e).__name__, e, os.path.basename(tb.filename),
                     tb.lineno), where)
        return None


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


def run(pid, fn, title, explanation, tier, assumptions=(), min_obs=1):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    repo = Repo(REPO)
    ck = Check(pid, tier, seed, repo)
    poly.clear_bounds()
    for p, e in repo.errors:
        ck.ob("parse:" + os.path.relpath(p, REPO), False, "parses", e, p)
    fatal = None
    try:
        fn(ck)
    except Undecided as e:
        fatal = str(e)
    except Exception as e:          # a defect of the analyser is no verdict
        traceback.print_exc()
        fatal = "analyser %s: %s" % (type(e).__name__, e)
    ck.absorb()
    bad = [o for o in ck.obs if o["ok"] is False]
    und = [o for o in ck.obs if o["ok"] is None]
    good = [o for o in ck.obs if o["ok"] is True]
    known = [k for k in load_known()
             if k["property"] == pid and k.get("status", "open") == "open"]
    new, old = [], []
    for o in bad:
        k = next((k for k in known if k["key"] == o["key"] and
                  k.get("detail", "") in o["detail"]), None)
        (old if k else new).append((o, k))
    printed = set()
    for o, k in old:
        if k["key"] not in printed:
            printed.add(k["key"])
            print("KNOWN-FINDING: property=%s %s (%s)" %
                  (pid, k["what"], o["key"]))
    for o in und:
        print("UNDECIDED property=%s %s: %s %s" % (pid, o["key"],
                                                   o["detail"],
                                                   o["where"] or ""))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": explanation,
            "obligations_total": len(ck.obs),
            "obligations_discharged": len(good),
            "discharged_by_normal_form": len([o for o in good
                                              if o["proof"]]),
            "discharged_by_identity_testing": len([o for o in good
                                                   if not o["proof"]]),
            "undecided": [{"key": o["key"], "why": o["detail"],
                           "where": o["where"]} for o in und],
            "known_findings_seen": sorted(printed),
            "functions_analysed": sorted(ck.functions),
            "functions_analysed_count": len(ck.functions),
            "abstract_calls": ck.calls,
            "state_joins": ck.joins,
            "sites": ck.sites,
            "library_models_used": sorted(ck.natives),
            "unmodelled_calls": sorted(ck.unmodelled),
            "rules": sorted(ck.rules),
            "samples": [{"key": o["key"], "rule": o["rule"],
                         "where": o["where"]} for o in good[:12]],
        },
        "assumptions": list(assumptions) + ck.assumptions,
        "wall_s": round(time.time() - t0, 3),
        "violations": len(new),
    }
    evd = os.environ.get("SA_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(evd, exist_ok=True)
    with open(os.path.join(evd, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    rp = os.path.join(evd, pid + ".replay.json")
    if new:
        with open(rp, "w") as f:
            json.dump({"property": pid, "rerun":
                       "python3 -m sa.run %s" % pid,
                       "violations": [o for o, _ in new]}, f, indent=1)
        for o, _ in new[:25]:
            print("  violated: %s\n    rule: %s\n    at: %s\n    %s" %
                  (o["key"], o["rule"], o["where"], o["detail"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if os.path.exists(rp):
        os.remove(rp)
    print("%s: %d obligations, %d discharged (%d by normal form), %d "
          "undecided, %d functions, %.2fs" %
          (pid, len(ck.obs), len(good),
           ev["coverage"]["discharged_by_normal_form"], len(und),
           len(ck.functions), ev["wall_s"]))
    if fatal:
        print("NO ANSWER property=%s: %s" % (pid, fatal))
        return 2
    if len(good) + len(old) < min_obs or len(good) < len(und):
        print("NO ANSWER property=%s: only %d obligations decided" %
              (pid, len(good)))
        return 2
    return 0
