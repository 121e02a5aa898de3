from _common import *

S = "pytorch3d.structures."


def warm(h, o, names):
    for n in names:
        h.m(o, n)
    return o


HOT = ["verts_packed", "verts_padded", "edges_packed", "faces_padded", "verts_normals_packed", "faces_normals_packed", "faces_areas_packed", "laplacian_packed", "verts_padded_to_packed_idx"]
CHOT = ["points_packed", "points_padded", "normals_packed", "normals_padded", "features_packed", "features_padded", "padded_to_packed_idx"]
SRC = ["list", "padded"]
TEX = [None, "vertex", "uv", "atlas"]


def on(mk, own="self"):
    """entry whose receiver is built first"""
    def deco(f):
        def build(h, **s):
            names = {k: s.pop(k) for k in list(s) if k in ("kind", "tex", "hot", "normals", "features")}
            o = mk(h, **names)
            h.own(own, o)
            return f(h, o, **s)
        return build
    return deco


def mesh(h, kind="list", tex=None, hot=False, normals=False, p="m"):
    o = meshes(h, p, kind, tex, normals=normals)
    return warm(h, o, HOT) if hot else o


def cloud(h, kind="list", hot=False, normals=True, features=True, p="p"):
    o = clouds(h, p, kind, normals=normals, features=features)
    return warm(h, o, CHOT) if hot else o


def call(o, name, *a, **kw):
    return lambda h: h.m(o, name, *a, **kw)


def EM(name, f, scen=None, base=None, mk=None, **k):
    """method entry: f(h, o, **scen) -> (method, args[, kwargs])"""
    mk = mk or mesh

    def build(h, **s):
        s = dict(s)
        names = {x: s.pop(x) for x in list(s) if x in ("kind", "tex", "hot", "normals", "features")}
        o = mk(h, **names)
        h.own("self", o)
        r = f(h, o, **s)
        m, args, kw = r if len(r) == 3 else (r[0], r[1], {})
        for i, a in enumerate(args):
            h.own(f"arg{i}", a)
        for n, a in kw.items():
            h.own(n, a)
        return lambda: h.m(o, m, *args, **kw)
    E(name, build, scen, **k)


# ---- Meshes ------------------------------------------------------------------------
E("structures.Meshes", lambda h, kind, tex, normals: (lambda: mesh(h, kind, tex, normals=normals)), dict(kind=SRC, tex=TEX, normals=[False, True]), rules={"construct"})
IDX = ["int", "slice", "list", "long", "bool"]


def index(h, how, n=2):
    return {"int": lambda: h.c(1), "slice": lambda: h.slice(0, 1), "list": lambda: h.L(h.c(1), h.c(0)),
            "long": lambda: h.I("index", "M"), "bool": lambda: h.B("index", n)}[how]()


EM("structures.Meshes.getitem", lambda h, o, how: ("__getitem__", [index(h, how, 2)]), dict(kind=["list"], tex=TEX, how=IDX))
EM("structures.Meshes.getitem.padded", lambda h, o, how: ("__getitem__", [index(h, how, "N")]), dict(kind=["padded"], tex=TEX, how=["int", "slice", "long", "list"]))
EM("structures.Meshes.clone", lambda h, o: ("clone", []), dict(kind=SRC, tex=TEX, hot=[False, True], normals=[False, True]), noalias=True)
EM("structures.Meshes.detach", lambda h, o: ("detach", []), dict(kind=SRC, tex=TEX, hot=[False, True], normals=[False, True]), nograd=True)
EM("structures.Meshes.to", lambda h, o: ("to", [h.dev("E")]), dict(kind=SRC, tex=TEX, hot=[False, True], normals=[False, True]))
EM("structures.Meshes.to.copy", lambda h, o: ("to", [h.dev("D")], dict(copy=h.c(True))), dict(kind=SRC, tex=TEX, hot=[True]), noalias=True)
EM("structures.Meshes.cpu", lambda h, o: ("cpu", []), dict(kind=SRC, tex=TEX, hot=[True]))
EM("structures.Meshes.get_mesh_verts_faces", lambda h, o: ("get_mesh_verts_faces", [h.c(1)]), dict(kind=SRC))
EM("structures.Meshes.split", lambda h, o: ("split", [h.L(h.c(1), h.c(1))]), dict(kind=["list"], tex=TEX))
EM("structures.Meshes.extend", lambda h, o: ("extend", [h.c(2)]), dict(kind=SRC, tex=TEX, hot=[False, True]))
EM("structures.Meshes.offset_verts", lambda h, o, off: ("offset_verts", [h.T("offset", 3) if off == "vec" else h.T("offset", *(h.m(o, "verts_packed").shape))]),
   dict(kind=SRC, tex=[None, "vertex"], hot=[False, True], normals=[False, True], off=["full", "vec"]))
EM("structures.Meshes.offset_verts_", lambda h, o, off: ("offset_verts_", [h.T("offset", 3) if off == "vec" else h.T("offset", *(h.m(o, "verts_packed").shape))]),
   dict(kind=SRC, tex=[None, "vertex"], hot=[False, True], normals=[False, True], off=["full", "vec"]), inplace="self")
EM("structures.Meshes.scale_verts", lambda h, o, sc: ("scale_verts", [h.float("scale") if sc == "float" else h.T("scale", 2)]), dict(kind=["list"], tex=[None, "vertex"], hot=[False, True], normals=[False, True], sc=["float", "tensor"]))
EM("structures.Meshes.scale_verts_", lambda h, o, sc: ("scale_verts_", [h.float("scale") if sc == "float" else h.T("scale", 2)]), dict(kind=["list"], tex=[None, "vertex"], hot=[False, True], normals=[False, True], sc=["float", "tensor"]), inplace="self")
EM("structures.Meshes.scale_verts.padded", lambda h, o: ("scale_verts", [h.float("scale")]), dict(kind=["padded"], hot=[False, True]))
EM("structures.Meshes.scale_verts_.padded", lambda h, o: ("scale_verts_", [h.float("scale")]), dict(kind=["padded"], hot=[False, True]), inplace="self")
EM("structures.Meshes.update_padded", lambda h, o: ("update_padded", [h.T("new", *h.m(o, "verts_padded").shape)]), dict(kind=SRC, tex=TEX, hot=[False, True], normals=[False, True]))
EM("structures.Meshes.submeshes", lambda h, o: ("submeshes", [h.L(h.L(h.I("fi0", "A"), h.I("fi1", "B")), h.L(h.I("fi2", "C3")))]), dict(kind=["list"], tex=TEX))
EM("structures.Meshes.sample_textures", lambda h, o: ("sample_textures", [frags(h, 2 if h.it.P.length(o).v == 2 else "N")]), dict(kind=SRC, tex=["vertex", "uv", "atlas"]), f64=False)


def frags(h, n=None):
    return h.call("pytorch3d.renderer.mesh.rasterizer:Fragments", pix_to_face=h.I("p2f", n or "N", "H", "W", "K"), zbuf=h.T("zbuf", n or "N", "H", "W", "K"),
                  bary_coords=h.T("bary", n or "N", "H", "W", "K", 3), dists=h.T("dists", n or "N", "H", "W", "K"))


E("structures.join_meshes_as_batch", lambda h, tex, inc: (S + "meshes:join_meshes_as_batch", [h.L(meshes(h, "a", "list", tex), meshes(h, "b", "list", tex))], dict(include_textures=h.c(inc))),
  dict(tex=TEX, inc=[True, False]))
E("structures.join_meshes_as_scene", lambda h, tex, inc, one: (S + "meshes:join_meshes_as_scene", [meshes(h, "a", "list", tex) if one else h.L(meshes(h, "a", "list", tex), meshes(h, "b", "list", tex))], dict(include_textures=h.c(inc))),
  dict(tex=TEX, inc=[True, False], one=[True, False]))

# ---- Pointclouds ----------------------------------------------------------------------
C = lambda *a, **k: EM(*a, mk=cloud, **k)
NF = dict(normals=[True, False], features=[True, False])
E("structures.Pointclouds", lambda h, kind, normals, features: (lambda: cloud(h, kind, False, normals, features)), dict(kind=SRC, **NF), rules={"construct"})
C("structures.Pointclouds.getitem", lambda h, o, how: ("__getitem__", [index(h, how, 2)]), dict(kind=["list"], how=IDX, **NF))
C("structures.Pointclouds.getitem.padded", lambda h, o, how: ("__getitem__", [index(h, how, "N")]), dict(kind=["padded"], how=["int", "slice", "long", "list"]))
C("structures.Pointclouds.clone", lambda h, o: ("clone", []), dict(kind=SRC, hot=[False, True], **NF), noalias=True)
C("structures.Pointclouds.detach", lambda h, o: ("detach", []), dict(kind=SRC, hot=[False, True], **NF), nograd=True)
C("structures.Pointclouds.to", lambda h, o: ("to", [h.dev("E")]), dict(kind=SRC, hot=[False, True], **NF))
C("structures.Pointclouds.to.copy", lambda h, o: ("to", [h.dev("D")], dict(copy=h.c(True))), dict(kind=SRC, hot=[True]), noalias=True)
C("structures.Pointclouds.cpu", lambda h, o: ("cpu", []), dict(kind=SRC, hot=[True]))
C("structures.Pointclouds.get_cloud", lambda h, o: ("get_cloud", [h.c(1)]), dict(kind=SRC, **NF))
C("structures.Pointclouds.split", lambda h, o: ("split", [h.L(h.c(1), h.c(1))]), dict(kind=["list"], **NF))
C("structures.Pointclouds.extend", lambda h, o: ("extend", [h.c(2)]), dict(kind=SRC, hot=[False, True], **NF))
C("structures.Pointclouds.offset", lambda h, o, off: ("offset", [h.T("offset", 3) if off == "vec" else h.T("offset", *(h.m(o, "points_packed").shape))]), dict(kind=SRC, hot=[False, True], off=["full", "vec"]))
C("structures.Pointclouds.offset_", lambda h, o, off: ("offset_", [h.T("offset", 3) if off == "vec" else h.T("offset", *(h.m(o, "points_packed").shape))]), dict(kind=SRC, hot=[False, True], off=["full", "vec"]), inplace="self")
C("structures.Pointclouds.scale", lambda h, o, sc: ("scale", [h.float("scale") if sc == "float" else h.T("scale", 2)]), dict(kind=["list"], hot=[False, True], sc=["float", "tensor"]))
C("structures.Pointclouds.scale_", lambda h, o, sc: ("scale_", [h.float("scale") if sc == "float" else h.T("scale", 2)]), dict(kind=["list"], hot=[False, True], sc=["float", "tensor"]), inplace="self")
C("structures.Pointclouds.scale_.padded", lambda h, o: ("scale_", [h.float("scale")]), dict(kind=["padded"], hot=[False, True]), inplace="self")
C("structures.Pointclouds.subsample", lambda h, o, k: ("subsample", [h.c(10) if k == "int" else h.L(h.c(5), h.c(6))]), dict(kind=["list"], k=["int", "list"], **NF))
C("structures.Pointclouds.estimate_normals", lambda h, o, self_: ("estimate_normals", [h.int("ns"), h.bool("dis"), h.c(self_)]), dict(kind=["padded"], self_=[True, False], features=[True]), f64=False, changes=["self.normals"])
C("structures.Pointclouds.update_padded", lambda h, o, nn, nf: ("update_padded", [h.T("new", *h.m(o, "points_padded").shape)],
  dict(**({"new_normals_padded": h.T("newn", *h.m(o, "points_padded").shape)} if nn else {}), **({"new_features_padded": h.T("newf", *(list(h.m(o, "points_padded").shape)[:2] + [h.d("C")]))} if nf else {}))),
  dict(kind=SRC, hot=[False, True], nn=[False, True], nf=[False, True], **NF))
C("structures.Pointclouds.inside_box", lambda h, o, nd: ("inside_box", [h.T("box", 2, 3) if nd == 2 else h.T("box", 2, 2, 3)]), dict(kind=["list"], nd=[2, 3], features=[True]))
E("structures.join_pointclouds_as_batch", lambda h, normals, features: (S + "pointclouds:join_pointclouds_as_batch", [h.L(cloud(h, "list", False, normals, features, "a"), cloud(h, "list", False, normals, features, "b"))]), NF)
E("structures.join_pointclouds_as_scene", lambda h, one, normals, features: (S + "pointclouds:join_pointclouds_as_scene", [cloud(h, "list", False, normals, features, "a") if one else h.L(cloud(h, "list", False, normals, features, "a"), cloud(h, "list", False, normals, features, "b"))]),
  dict(one=[True, False], **NF))

# ---- Volumes ------------------------------------------------------------------------------


def vol(h, kind="padded", features=True, hot=False, p="v", vs="tensor"):
    if kind == "padded":
        d, f = h.T(f"{p}.d", "N", 1, "D", "H", "W"), h.T(f"{p}.f", "N", "C", "D", "H", "W")
        n = "N"
    else:
        d = h.L(*[h.T(f"{p}.d{i}", 1, f"D{i}", f"H{i}", f"W{i}") for i in range(2)])
        f = h.L(*[h.T(f"{p}.f{i}", "C", f"D{i}", f"H{i}", f"W{i}") for i in range(2)])
        n = 2
    kw = dict(align_corners=h.bool(f"{p}.align"))
    kw["voxel_size"] = {"tensor": lambda: h.T(f"{p}.vs", n, 3), "scalar": lambda: h.float(f"{p}.vs"), "vec": lambda: h.T(f"{p}.vs", 3), "one": lambda: h.T(f"{p}.vs", n, 1)}[vs]()
    kw["volume_translation"] = {"tensor": lambda: h.T(f"{p}.vt", n, 3), "scalar": lambda: h.tup(*[h.float(f"{p}.vt") for _ in range(3)]), "vec": lambda: h.T(f"{p}.vt", 3), "one": lambda: h.T(f"{p}.vt", 1, 3)}[vs]()
    if features:
        kw["features"] = f
    return h.call(S + "volumes:Volumes", d, **kw)


V = lambda *a, **k: EM(*a, mk=vol, f64=False, **k)   # the locator's transform is float32
E("structures.Volumes", lambda h, kind, vs: (lambda: vol(h, kind, True, p="v", vs=vs)), dict(kind=["padded", "list"], vs=["tensor", "scalar", "vec", "one"]), f64=False, rules={"construct"})
V("structures.Volumes.getitem", lambda h, o, how: ("__getitem__", [index(h, how, "N")]), dict(kind=["padded"], how=IDX, features=[True, False]))
V("structures.Volumes.clone", lambda h, o: ("clone", []), dict(kind=SRC, features=[True, False]), noalias=True)
V("structures.Volumes.to", lambda h, o: ("to", [h.dev("E")]), dict(kind=SRC, features=[True, False]))
V("structures.Volumes.to.copy", lambda h, o: ("to", [h.dev("D")], dict(copy=h.c(True))), dict(kind=SRC), noalias=True)
V("structures.Volumes.cpu", lambda h, o: ("cpu", []), dict(kind=SRC))
V("structures.Volumes.update_padded", lambda h, o, nf: ("update_padded", [h.T("new", "N", 1, "D", "H", "W")] + ([h.T("newf", "N", "C2", "D", "H", "W")] if nf else [])), dict(kind=["padded"], nf=[True, False]))
V("structures.Volumes.world_to_local_coords", lambda h, o: ("world_to_local_coords", [h.T("pts", "N", "A", "B", 3)]), dict(kind=["padded"]))
V("structures.Volumes.local_to_world_coords", lambda h, o: ("local_to_world_coords", [h.T("pts", "N", "A", "B", 3)]), dict(kind=["padded"]))
V("structures.Volumes.get_coord_grid", lambda h, o: ("get_coord_grid", [h.bool("world_coordinates")]), dict(kind=SRC))


def locator(h, gs="tensor"):
    g = {"tensor": lambda: h.I("gs", 2, 3), "tuple": lambda: h.tup(h.size("D"), h.size("H"), h.size("W"))}[gs]()
    return h.call(S + "volumes:VolumeLocator", batch_size=h.c(2), grid_sizes=g, device=h.dev(), voxel_size=h.T("vs", 2, 3), volume_translation=h.T("vt", 2, 3), align_corners=h.bool("align"))


E("structures.VolumeLocator", lambda h, gs: (lambda: locator(h, gs)), dict(gs=["tensor", "tuple"]), f64=False, rules={"construct"})

# ---- list / padded / packed conversions ------------------------------------------------------
U = S + "utils:"
E("structures.list_to_padded", lambda h, ps, eq: (U + "list_to_padded", [h.L(h.T("x0", "A", 3), h.T("x1", "A" if eq else "B", 3))], dict(pad_value=h.float("pad_value"), equisized=h.c(eq), **({"pad_size": h.L(h.size("P"), h.c(3))} if ps else {}))),
  dict(ps=[False, True], eq=[False, True]))
E("structures.padded_to_list", lambda h, split: (U + "padded_to_list", [h.T("x", 2, "P", 3)] + ([] if split is None else [h.L(h.size("A"), h.size("B"))] if split == "int" else [h.L(h.tup(h.size("A"), h.c(3)), h.tup(h.size("B"), h.c(3)))])),
  dict(split=[None, "int", "seq"]))
E("structures.list_to_packed", lambda h: (U + "list_to_packed", [h.L(h.T("x0", "A", 3), h.T("x1", "B", 3))]))
E("structures.packed_to_list", lambda h: (U + "packed_to_list", [h.T("x", dims.add(h.d("A"), h.d("B")), 3), h.L(h.size("A"), h.size("B"))]))
E("structures.padded_to_packed", lambda h, how: (U + "padded_to_packed", [h.T("x", 2, "P", 3)], {} if how is None else {"split_size": h.L(h.size("A"), h.size("B"))} if how == "split" else {"pad_value": h.float("pad_value")}),
  dict(how=[None, "split", "pad"]))

# which property each of these operations stands for
import re as _re
from sa.spec import ENTRIES as _E
for _n, _e in _E.items():
    if not _n.startswith("structures."):
        continue
    if _re.search(r"\.(getitem|clone|detach|to|cpu|split|extend|submeshes|subsample|get_cloud|get_mesh_verts_faces)\b|join_", _n):
        _e.opts["carry"] = True
    if _re.search(r"\.(offset|scale|update_padded|subdivide|estimate_normals)", _n):
        _e.opts["update"] = True
