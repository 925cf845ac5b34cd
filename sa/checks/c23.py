"""Precision analysis: a double-precision problem stays double-precision."""
import importlib
import multiprocessing
import os

from .. import core, poly, precision
from ..interp import Repo
from ..poly import Rat
from . import c11
from .common import sym

TITLE = "A double-precision problem stays in double precision"
EXPLANATION = (
    "A precision analysis. Every floating-point array of the abstract heap "
    "carries its precision (double, single, unknown): what the checks hand "
    "in is double, a factory has the precision of its dtype argument or the "
    "library's default (single for PyTorch), operations promote and convert "
    "as the libraries do. The calls the other checks make (models, bounds, "
    "encodings, programs, losses, roll-outs, training, all in double "
    "precision) are rerun in this domain. A single-precision array is "
    "accepted only while every number in it, for all values of the symbols, "
    "is exactly representable in single precision (zeros, ones, empty "
    "shapes, infinities, signs) or pure random noise; a product of a single "
    "and a double-precision tensor, which PyTorch refuses, is not accepted.")
ASSUMPTIONS = (
    "PyTorch's default dtype is float32 and torch, NumPy promote as "
    "documented",
    "arrays of unknown precision are not counted")
MIN_OBS = 250
RULE = ("a single-precision array holds nothing that depends on the data; "
        "matrix products do not mix precisions")
GIVEN = ("every tensor of numbers in what a function of the library returns "
         "for a double-precision problem is double-precision")
DONORS = ["c23", "c22", "c12", "c28"] + [
    "c%02d" % i for i in range(1, 31) if i not in (12, 17, 18, 22, 23, 28)]


def direct(ck):
    """numbers handed in as Python numbers"""
    F = Rat.of
    for cls in ("GurobiTorchMIP", "GurobiTorchMILP", "GurobiTorchMIQP"):
        poly.clear_bounds()
        poly.set_bounds("lo", None, 0, False, True)
        poly.set_bounds("up", 0, None, True)
        ip = ck.interp()
        mip = c11.new_mip(ip, cls)
        f = ip.getattr(mip, "addVars")
        x = []
        for kw in ({"lb": sym("lo"), "ub": sym("up")}, {"lb": sym("lo")},
                   {"ub": sym("up")}):
            x += ip.items(ip.call(f, [2], kw))
        b = ip.items(ip.call(f, [2], {"vtype": "B"}))
        for s in ("<", ">", "="):
            ip.call(ip.getattr(mip, "addLConstr"), [
                ip.new_list([c11.T(ip, [sym("a"), sym("c")])]),
                ip.new_list([ip.new_list(x[:2])])],
                {"sense": s, "rhs": sym("r")})
        lin = [ip.new_list([c11.T(ip, [sym("a"), sym("c")]),
                            c11.T(ip, [sym("d"), sym("e")])]),
               ip.new_list([ip.new_list(x[:2]), ip.new_list(b)])]
        for m in (1, -1):
            if cls == "GurobiTorchMILP":
                ip.call(ip.getattr(mip, "setObjective"),
                        lin + [sym("k"), m], {})
            elif cls == "GurobiTorchMIQP":
                q = c11.T(ip, [F(2), sym("h"), sym("h"), F(3)], (2, 2))
                ip.call(ip.getattr(mip, "setObjective"), [
                    ip.new_list([q]), ip.new_list([
                        (ip.new_list(x[:2]), ip.new_list(x[:2]))])] +
                    lin + [sym("k"), m], {})


class Prec(core.Check):
    def interp(self):
        ip = super().interp()
        precision.install(ip)
        self.ips.append(ip)
        return ip


def donor(a):
    name, args = a
    pid, tier, seed = args
    run = direct if name == "c23" else importlib.import_module(
        "sa.checks." + name).check
    ck = Prec(pid, tier, seed, Repo(core.REPO))
    ck.ips = []
    poly.clear_bounds()
    run(ck)
    poly.clear_bounds()
    ck.absorb()
    sites, bad, given, handed = {}, {}, {}, 0
    for ip in ck.ips:
        for w, d in ip.prec_sites.items():
            g = sites.setdefault(w, {})
            for k, n in d.items():
                g[k] = g.get(k, 0) + n
        for w, v in ip.lossy:
            bad.setdefault(w, "%s is held in single precision" %
                           str(v)[:60])
        handed += ip.handed
        for (f, p), w in ip.given.items():
            given.setdefault((f, p), w)
        for op, w in ip.mismatches:
            bad.setdefault(w, "tensors of different dtype meet in %s" %
                           op)
    return name, sites, bad, given, handed, sorted(ck.functions), ck.calls, ck.joins, \
        sorted(ck.natives)


def check(ck):
    jobs = [(n, (ck.pid, ck.tier, ck.seed)) for n in DONORS]
    with multiprocessing.get_context("fork").Pool(
            min(len(jobs), os.cpu_count() or 1)) as pool:
        res = pool.map(donor, jobs, chunksize=1)
    tot, bad = {}, {}
    given, handed = {}, 0
    for name, sites, b, g1, h1, fns, calls, joins, nat in sorted(
            res, key=lambda r: r[0]):
        for w, d in sites.items():
            g = tot.setdefault(w, {})
            for k, n in d.items():
                g[k] = g.get(k, 0) + n
        for w, v in b.items():
            bad.setdefault(w, v)
        for k, w in g1.items():
            given.setdefault(k, w)
        handed += h1
        ck.functions |= set(fns)
        ck.natives |= set(nat)
        ck.calls += calls
        ck.joins += joins
    for w in sorted(set(tot) | set(bad)):
        d = tot.get(w, {})
        ck.ob(w, w not in bad, RULE, bad.get(w) or
              "%d double, %d single but exact, %d products" %
              (d.get(64, 0), d.get(32, 0), d.get("same", 0)), w)
    ck.ob("results", True, GIVEN, "%d arrays in the results of the calls" %
          handed, "")
    for (f, p), w in sorted(given.items(), key=str):
        ck.ob("result %s%s" % (f, p), False, GIVEN,
              "%s%s is not in double precision" % (f, p), w or f)
