"""Image encoders and decoders: shapes, range, split of mean and log-variance,
no mixing of samples."""
from .. import poly, layers
from ..poly import Rat
from ..values import Arr, ListV
from .common import where, sym

TITLE = "Encoders and decoders are shape-inverse and keep samples apart"
EXPLANATION = (
    "Every encoder / decoder class is constructed and applied in a shape and "
    "dependence domain: layer outputs are uninterpreted terms over (layer, "
    "channel, digest of the sample), shapes are exact. Rules: encoder output "
    "is (mean, log-variance), a disjoint split of the affine last layer; "
    "decoder output has the image shape and a range inside [0, 1]; each row "
    "depends on every input of its own sample and of no other; every layer "
    "with parameters takes part.")
ASSUMPTIONS = ("torch layers follow their documented shape rule",)
MIN_OBS = 80
PAIRS = [("LinearEncoder1", "LinearDecoder1", ((12, 20), )),
         ("CNNEncoder1", "CNNDecoder1", ((12, 20), (16, 8))),
         ("CNNEncoder2", "CNNDecoder2", ((48, 56), ))]


def trace(ip, cell, memo, layers_seen):
    """leaf symbols a term depends on (through sample digests)"""
    rev = ip._rev
    out = set()

    def atom(a):
        if a.name.startswith("layer") and a.args:
            layers_seen.add(a.name)
        if not a.args and a.name in rev:
            if a.name not in memo:
                memo[a.name] = None
                s = set()
                for c in rev[a.name]:
                    s |= trace(ip, c, memo, layers_seen)
                memo[a.name] = s
            return memo[a.name] or set()
        if not a.args:
            return {a.name}
        return set()
    for a in Rat.of(cell).atoms(True):
        out |= atom(a)
    return out


def leafs(ip, cells):
    seen = set()
    memo = {}
    out = set()
    done = {}
    for c in cells:
        k = c.key() if isinstance(c, Rat) else c
        if k in done:
            continue
        done[k] = 1
        out |= trace(ip, c, memo, seen)
    return out, seen


def rev(ip, table):
    ip._rev = table


def param_layers(ip, o):
    from .. import natives
    return set(ip.st.meta[p.addr]["param"]
               for p in natives.module_params(ip, o))


def track(ip):
    """keep the cells of each digest for the dependence rule"""
    ip._rev = {}
    orig = layers._digest

    def digest(ip_, cells):
        g = orig(ip_, cells)
        name = g.num and next(iter(g.atoms(False))).name
        if name not in ip_._rev:
            u, seen = [], set()
            for c in cells:
                k = c.key() if isinstance(c, Rat) else c
                if k not in seen:
                    seen.add(k)
                    u.append(c)
            ip_._rev[name] = u
        return g
    return orig, digest


def one(ck, cls, is_enc, W, H, gray):
    w = where(ck.repo, "encoders", cls + ".forward")
    key = "%s.%dx%d.%s" % (cls, W, H, "gray" if gray else "rgb")
    z, N = 3, 2
    ip = ck.interp()
    layers.install(ip)
    orig, dg = track(ip)
    layers._digest = dg
    try:
        o = ip.call(ip.get("encoders", cls), [z, W, H, gray], {})
        C = 2 if gray else 6
        shape = (N, C, W, H) if is_enc else (N, z)
        per = C * W * H if is_enc else z
        x = ip.new_arr(shape, [sym("in%d_%d" % (r, i)) for r in range(N)
                               for i in range(per)], "torch")
        r = ip.call(o, [x], {})
        if is_enc:
            parts = list(r) if isinstance(r, tuple) else ip.items(r)
            ok = len(parts) == 2 and all(
                isinstance(p, Arr) and p.shape == (N, z) for p in parts)
            ck.ob(key + ".shape", ok, "mean and log-variance are [batch, "
                  "latent]", [getattr(p, "shape", p) for p in parts], w)
            if not ok:
                return
            cells = [c for p in parts for c in ip.cells(p)]
            ck.ob(key + ".split", len(set(c.key() for c in cells)) ==
                  len(cells), "mean and log-variance are a disjoint split of "
                  "the last layer", "", w)
            bare = all(len(c.atoms(False)) == 1 and
                       next(iter(c.atoms(False))).name.startswith("layer") and
                       c == Rat.atom(next(iter(c.atoms(False))))
                       for c in cells)
            ck.ob(key + ".affine", bare, "mean and log-variance are "
                  "unbounded affine outputs", str(cells[0])[:80], w)
            rows = [[c for p in parts for c in ip.cells(p)[k * z:(k + 1) * z]]
                    for k in range(N)]
        else:
            ok = isinstance(r, Arr) and r.shape == (N, C, W, H)
            ck.ob(key + ".shape", ok, "decoded image has the image shape",
                  getattr(r, "shape", r), w)
            if not ok:
                return
            cells = ip.cells(r)
            rng = True
            done = set()
            for c in cells:
                if c.key() in done:
                    continue
                done.add(c.key())
                iv = poly.interval(Rat.of(c))
                rng = rng and iv[0] >= 0 and iv[2] <= 1
            ck.ob(key + ".range", rng, "decoded pixels lie in [0, 1]",
                  str(cells[0])[:80], w)
            p = C * W * H
            rows = [cells[k * p:(k + 1) * p] for k in range(N)]
        used = set()
        for k in range(N):
            deps, seen = leafs(ip, rows[k])
            used |= seen
            want = set("in%d_%d" % (k, i) for i in range(per))
            ck.ob("%s.row%d" % (key, k), deps == want,
                  "a row depends on every input of its own sample only",
                  "foreign %s missing %s" % (sorted(deps - want)[:4],
                                             sorted(want - deps)[:4]), w)
        pl = param_layers(ip, o)
        ck.ob(key + ".layers", bool(pl) and pl <= used,
              "every layer with parameters takes part", sorted(pl - used), w)
        ck.sites += len(pl)
    finally:
        layers._digest = orig


def check(ck):
    for enc, dec, sizes in PAIRS:
        for (W, H) in sizes:
            for gray in (True, False):
                for cls, e in ((enc, True), (dec, False)):
                    ck.attempt("%s.%dx%d.%s" % (cls, W, H, gray),
                               lambda: one(ck, cls, e, W, H, gray),
                               "network shapes",
                               where(ck.repo, "encoders", cls + ".forward"))
