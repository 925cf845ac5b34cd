"""Stop-gradient analysis: what should be trained stays connected."""
import importlib
import multiprocessing
import os
import re

from .. import core, poly, natives
from ..interp import Repo
from ..poly import Rat
from ..values import Arr

TITLE = "Losses and programs stay connected to what is trained"
EXPLANATION = (
    "The evaluations of the network encodings, the dynamics encodings, the "
    "Lyapunov and barrier programs, the closed forms of their optima, the "
    "sample losses and the total losses are repeated in a domain in which "
    "every operation that leaves the autograd graph (detach, numpy, item, "
    "tolist, .data, torch.tensor of a tensor, no_grad ...) renames the "
    "trainable symbols of the value it returns. A value that the property "
    "wants differentiable and that still is the right value may not contain "
    "a renamed symbol, except in the condition of a branch.")
ASSUMPTIONS = ("PyTorch's autograd follows its documentation; input boxes, "
               "samples and what a solver returned are constants", )
MIN_OBS = 3000
RULE = "the value is connected to the parameters it depends on"

# what is not trained, per donor: boxes, samples, solver results
BOX = r"x\d*\.(lo|e|g)$|x\d*lo|pre_|nn_|g\d+\.v\d|value$|roa\."
DONORS = {
    "c09": (None, BOX + r"|c[\dng]*$|^[pqr]\."),
    "c11": (None, None),
    "c12": (None, None),
    "c13": (None, BOX),
    "c14": (None, BOX),
    "c15": (None, BOX),
    "c16": (None, BOX),
    "c19": (None, None),
    "c22": (("mips", "barrier_mips", "sample_losses", "total",
             "boundary_gap", "barrier_loss"), r"x_|" + BOX),
    "c25": (("programs", "sample_losses", "dynamics_losses"), r"x_|" + BOX),
    "c26": (None, BOX),
    "c29": (None, BOX),
}


def loose(r, acc):
    """the renamed symbols of r outside branch conditions"""
    for a in r.atoms(deep=False):
        if natives.frozen_atom(a):
            acc.add(a.name)
        elif a.kind != "ind":
            for x in a.args:
                if isinstance(x, Rat):
                    loose(x, acc)
    return acc


def thawed(r):
    return poly.subst(r, natives.thaw_atom)


class Grad(core.Check):
    """a check whose interpreters rename what leaves the autograd graph"""
    pat = None

    def interp(self):
        ip = super().interp()
        pat = self.pat
        ip.live = lambda a: a.name not in ("pi", "inf") and not (
            pat and pat.search(a.name))
        self.live = ip.live
        return ip

    def connected(self, r, acc):
        for a in r.atoms(deep=False):
            if a.kind in ("sym", "fn") and self.live(a):
                acc.add(a.name)
            elif a.kind != "ind":
                for x in a.args:
                    if isinstance(x, Rat):
                        self.connected(x, acc)
        return acc

    def eq(self, key, a, b, rule, where=None, detail=""):
        try:
            a, b = Rat.of(a), Rat.of(b)
        except TypeError:
            return None
        b = thawed(b)
        if b.is_const() or not self.connected(b, set()):
            return True
        bad = loose(a, set())
        ok = not bad
        if bad:
            t = thawed(a)
            if t != b and poly.equal(t, b, self.seed)[0] is not True:
                return None     # not the value: another property's business
        core.Check.ob(self, key, ok, RULE, "constant for autograd: %s" %
                      sorted(bad)[:8] if bad else "", where)
        return ok

    def ob(self, key, ok, rule, detail="", where=None, proof=True):
        self.flags.append((key, ok, rule, str(detail)[:600], where))
        return ok


class Plain(core.Check):
    def ob(self, key, ok, rule, detail="", where=None, proof=True):
        self.flags.append((key, ok))
        return ok


def evaluate(cls, name, args):
    only, pat = DONORS[name]
    pid, tier, seed = args
    m = importlib.import_module("sa.checks." + name)
    ck = cls(pid, tier, seed, Repo(core.REPO))
    ck.flags = []
    ck.pat = re.compile(pat) if pat else None
    poly.clear_bounds()
    if only:
        for f in only:
            poly.clear_bounds()
            getattr(m, f)(ck)
    else:
        m.check(ck)
    poly.clear_bounds()
    ck.absorb()
    return ck


def donor(a):
    name, args = a
    ck = evaluate(Grad, name, args)
    obs = [(o["key"], o["ok"], o["detail"], o["where"]) for o in ck.obs]
    bad = [f for f in ck.flags if f[1] is False]
    if bad:
        # facts that hold for the plain values and fail once what left the
        # graph is renamed
        pl = evaluate(Plain, name, args)
        plain = {}
        for k, ok in pl.flags:
            plain.setdefault(k, []).append(ok)
        for k, ok, rule, d, w in bad:
            if natives.FROZEN in d and plain.get(k) and all(
                    v is True for v in plain[k]):
                obs.append((k, False, "%s: %s" % (rule, d), w))
    return name, obs, sorted(ck.functions), ck.calls, ck.joins, \
        sorted(ck.natives)


def check(ck):
    jobs = [(n, (ck.pid, ck.tier, ck.seed)) for n in
            sorted(DONORS, key=lambda n: n not in ("c22", "c12", "c09"))]
    with multiprocessing.get_context("fork").Pool(
            min(len(jobs), os.cpu_count() or 1)) as pool:
        res = pool.map(donor, jobs, chunksize=1)
    for name, obs, fns, calls, joins, nat in sorted(res):
        for k, ok, d, w in obs:
            ck.ob("%s:%s" % (name.upper(), k), ok, RULE, d, w)
        ck.functions |= set(fns)
        ck.natives |= set(nat)
        ck.calls += calls
        ck.joins += joins
