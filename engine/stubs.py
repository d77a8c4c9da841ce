"""Models of the external packages the repository imports."""
import os
import types

from . import faketorch as F
from .terms import Unsupported

KORNIA = "/opt/venv/lib"


def _find(rel):
    import glob
    g = glob.glob(os.path.join(KORNIA, "python3*", "site-packages", rel))
    if not g:
        raise Unsupported("installed %s not found" % rel)
    return g[0]


class Opaque:
    """object about which nothing is known"""

    def __init__(self, name="opaque"):
        object.__setattr__(self, "_n", name)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return Opaque(self._n + "." + k)

    def __call__(self, *a, **k):
        return Opaque(self._n + "()")


class OpaqueModule(types.ModuleType):
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return Opaque(self.__name__ + "." + k)


def kornia_linalg(torch):
    """the two functions used, executed from the installed kornia source over the symbolic torch"""
    import ast
    src = open(_find("kornia/geometry/linalg.py")).read()
    tree = ast.parse(src)
    keep = [n for n in tree.body if isinstance(n, ast.FunctionDef) and n.name in
            ("compose_transformations", "inverse_transformation", "relative_transformation")]
    from . import runtime as R
    import builtins
    b = dict(vars(builtins))
    b.update(R.overrides())
    g = {"torch": torch, "__builtins__": b, "__name__": "kornia.geometry.linalg"}
    m = ast.Module(keep, [])
    exec(compile(m, "kornia/geometry/linalg.py", "exec"), g)
    from .runtime import vc_fn
    ns = F.Namespace("kornia.geometry.linalg")
    for n in ("compose_transformations", "inverse_transformation", "relative_transformation"):
        setattr(ns, n, vc_fn("kornia:" + n)(g[n]))
    return ns


def externals():
    torch, mods = F.build_torch()
    np, nmods = F.build_numpy()
    mods = dict(mods)
    mods.update(nmods)
    k, kg = F.Namespace("kornia"), F.Namespace("kornia.geometry")
    kl = kornia_linalg(torch)
    k.geometry, kg.linalg = kg, kl
    mods.update({"kornia": k, "kornia.geometry": kg, "kornia.geometry.linalg": kl})
    ch, chc = F.Namespace("chamferdist"), F.Namespace("chamferdist.chamfer")
    chc.knn_points = F.knn_points
    ch.chamfer = chc
    mods.update({"chamferdist": ch, "chamferdist.chamfer": chc})
    cv2 = F.Namespace("cv2")
    cv2.INTER_NEAREST, cv2.INTER_LINEAR = 0, 1
    cv2.COLOR_RGB2BGR, cv2.IMWRITE_JPEG_QUALITY = 4, 1
    from .special import cv2_resize
    cv2.resize = cv2_resize
    mods["cv2"] = cv2
    for n in ("open3d", "plotly", "plotly.graph_objects", "plotly.subplots", "imageio", "natsort"):
        mods[n] = OpaqueModule(n)
    from .lists import read_array
    mods["imageio"].imread = lambda path, *a, **k: read_array(path)
    mods["natsort"].natsorted = sorted
    mods["plotly"].graph_objects = mods["plotly.graph_objects"]
    return {"tops": {"torch", "numpy", "kornia", "chamferdist", "cv2", "open3d", "plotly", "imageio", "natsort"}, "mods": mods}
