"""Shape-and-dependence domain for network layers: an output cell is an
uninterpreted term over (layer instance, output channel, digest of the
sample it was computed from). Shapes are exact."""
from . import poly, natives
from .poly import Rat
from .values import Arr, AbsRaise, ExtV, PyFn, Opaque

Q = "sa.Layer"
WEIGHTED = ("Linear", "Conv2d", "ConvTranspose2d", "BatchNorm1d",
            "BatchNorm2d", "LayerNorm", "GroupNorm")
natives.EXT_BASES[Q] = ["torch.nn.Module"]


def _num(ip, v):
    return ip.as_index(v)


def _pair(ip, v):
    if isinstance(v, tuple):
        return tuple(_num(ip, x) for x in v)
    return (_num(ip, v), ) * 2


def install(ip):
    ip.layer_count = 0
    ip.layer_digest = {}

    def mk(kind, spec):
        ps = natives.parse_spec(spec)

        def hook(ip, args, kw):
            vals = natives.bind(ip, ps, list(args), dict(kw), kind)
            names = [n[1][0] for n in ps]
            n = ip.layer_count
            ip.layer_count += 1
            o = ip.new_obj(ExtV(Q), {"kind": kind, "n": n})
            for a, b in zip(names, vals):
                ip.attrs(o)[a] = b
            if kind in WEIGHTED:
                ip.attrs(o)["weight"] = natives.param(
                    ip, (1, ), "layer%d" % n)
            return o
        ip.hooks["ext:torch.nn." + kind] = hook
    mk("Linear", "in_features out_features bias=True dtype=None")
    mk("Conv2d", "in_channels out_channels kernel_size stride=1 padding=0 "
       "dilation=1 bias=True dtype=None")
    mk("ConvTranspose2d", "in_channels out_channels kernel_size stride=1 "
       "padding=0 output_padding=0 bias=True dtype=None")
    mk("MaxPool2d", "kernel_size stride=None padding=0")
    mk("AvgPool2d", "kernel_size stride=None padding=0")
    mk("Upsample", "size=None scale_factor=None mode=nearest")
    for n in ("BatchNorm1d", "BatchNorm2d"):
        mk(n, "num_features eps=1e-5 momentum=0.1 affine=True "
           "track_running_stats=True dtype=None")
    mk("LayerNorm", "normalized_shape eps=1e-5 elementwise_affine=True "
       "dtype=None")
    mk("GroupNorm", "num_groups num_channels eps=1e-5 affine=True dtype=None")
    mk("InstanceNorm2d", "num_features eps=1e-5 momentum=0.1 affine=False")
    for n in ("Dropout", "Dropout2d"):
        mk(n, "p=0.5 inplace=False")


def _digest(ip, cells):
    k = tuple(c.key() if isinstance(c, Rat) else repr(c) for c in cells)
    d = ip.layer_digest
    if k not in d:
        d[k] = Rat.sym("sample%d" % len(d))
    return d[k]


def _bad(ip, msg):
    raise AbsRaise("RuntimeError", "layer shape mismatch: " + msg, ip.where())


@natives.method(Q, "__call__", "x")
def _call(ip, o, x):
    d = ip.attrs(o)
    kind = d["kind"]
    if not isinstance(x, Arr):
        return Opaque("layer", (o, x))
    sh = x.shape
    cells = ip.cells(x)
    if kind == "Linear":
        nin, nout = _num(ip, d["in_features"]), _num(ip, d["out_features"])
        if not sh or sh[-1] != nin:
            _bad(ip, "Linear(%d, %d) applied to %s" % (nin, nout, sh))
        rows = len(cells) // nin
        out = []
        for r in range(rows):
            g = _digest(ip, cells[r * nin:(r + 1) * nin])
            out += [poly.fn("layer%d" % d["n"], j, g) for j in range(nout)]
        return ip.new_arr(sh[:-1] + (nout, ), out, "torch")
    if kind in ("BatchNorm1d", "BatchNorm2d"):
        # batch statistics: every output depends on the whole batch
        g = _digest(ip, cells)
        ch = max(1, len(cells) // sh[0] // sh[1])
        return ip.new_arr(sh, [poly.fn("layer%d" % d["n"],
                                       (i // ch) % sh[1], c, g)
                               for i, c in enumerate(cells)], "torch")
    if kind in ("LayerNorm", "GroupNorm", "InstanceNorm2d"):
        per = len(cells) // sh[0]
        out = []
        for r in range(sh[0]):
            row = cells[r * per:(r + 1) * per]
            g = _digest(ip, row)
            out += [poly.fn("layer%d" % d["n"], i, c, g)
                    for i, c in enumerate(row)]
        return ip.new_arr(sh, out, "torch")
    if kind in ("Dropout", "Dropout2d"):
        return ip.new_arr(sh, [poly.fn("drop%d" % d["n"], c)
                               for c in cells], "torch")
    if len(sh) != 4:
        _bad(ip, "%s applied to %s" % (kind, sh))
    n, c, h, w = sh
    per = c * h * w
    if kind in ("Conv2d", "ConvTranspose2d"):
        ci, co = _num(ip, d["in_channels"]), _num(ip, d["out_channels"])
        if ci != c:
            _bad(ip, "%s(%d, %d) applied to %s" % (kind, ci, co, sh))
        k, s, p = (_pair(ip, d[a]) for a in ("kernel_size", "stride",
                                             "padding"))
        if kind == "Conv2d":
            oh, ow = ((v + 2 * p[i] - k[i]) // s[i] + 1
                      for i, v in enumerate((h, w)))
        else:
            oh, ow = ((v - 1) * s[i] - 2 * p[i] + k[i]
                      for i, v in enumerate((h, w)))
    elif kind in ("MaxPool2d", "AvgPool2d"):
        co = c
        k = _pair(ip, d["kernel_size"])
        s = k if d["stride"] is None else _pair(ip, d["stride"])
        p = _pair(ip, d["padding"])
        oh, ow = ((v + 2 * p[i] - k[i]) // s[i] + 1
                  for i, v in enumerate((h, w)))
    else:
        f = _pair(ip, d["scale_factor"])
        co, oh, ow = c, h * f[0], w * f[1]
    if oh <= 0 or ow <= 0:
        _bad(ip, "%s output %dx%d" % (kind, oh, ow))
    out = []
    for r in range(n):
        g = _digest(ip, cells[r * per:(r + 1) * per])
        for ch in range(co):
            out += [poly.fn("layer%d" % d["n"], ch, g)] * (oh * ow)
    return ip.new_arr((n, co, oh, ow), out, "torch")


natives.EXT_METHODS[(Q, "forward")] = natives.EXT_METHODS[(Q, "__call__")]
