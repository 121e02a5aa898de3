"""Reading and writing meshes and point clouds."""
from _common import *

IOM = "pytorch3d.io."


def pm(h):
    """a path manager owned by the caller"""
    o = h.call("iopath.common.file_io:PathManager") if False else h.ext("iopath.common.file_io.PathManager", **{"%owner": h.c("caller")})
    return o


def stream(h, mode):
    """an open file object of the caller"""
    return h.ext("file", **{"mode": h.c(mode), "data": h.T("stream", "n"), "closed": h.c(False), "%stream": h.c("stream")})


def path(h, v):
    return h.str("path", v)


def target(h, where, v, mode):
    return stream(h, mode) if where == "stream" else path(h, v)


def uvtex(h, p="m", multi=False):
    return dict(verts_uvs=h.T(p + ".vuv", "U", 2), faces_uvs=h.I(p + ".fuv", "F", 3), texture_map=h.T(p + ".map", "H", "W", 3))


E("io.save_obj", lambda h, tex, nrm, dp: (IOM + "obj_io:save_obj", [path(h, "out/mesh.obj"), h.T("verts", "V", 3), h.I("faces", "F", 3)], dict(
    decimal_places=h.int("dp") if dp else NONE, path_manager=pm(h),
    **(dict(normals=h.T("normals", "Vn", 3), faces_normals_idx=h.I("fni", "F", 3)) if nrm else {}),
    **(uvtex(h) if tex else {}))),
  dict(tex=[False, True], nrm=[False, True], dp=[False, True]), f64=False)
E("io.load_obj", lambda h, lt, atlas: (IOM + "obj_io:load_obj", [path(h, "in/mesh.obj")], dict(load_textures=h.c(lt), create_texture_atlas=h.c(atlas), texture_atlas_size=h.int("size"), texture_wrap=h.str("wrap"), device=h.dev(), path_manager=pm(h))),
  dict(lt=[True, False], atlas=[False, True]), f64=False)
E("io.load_objs_as_meshes", lambda h, lt, atlas: (IOM + "obj_io:load_objs_as_meshes", [h.L(path(h, "in/a.obj"), path(h, "in/b.obj"))],
  dict(load_textures=h.c(lt), create_texture_atlas=h.c(atlas), texture_atlas_size=h.int("size"), texture_wrap=h.str("wrap"), device=h.dev(), path_manager=pm(h))), dict(lt=[True, False], atlas=[False, True]), f64=False)
E("io.save_ply", lambda h, to, f, n, asc, dp: (IOM + "ply_io:save_ply", [target(h, to, "x.ply", "wb"), h.T("verts", "V", 3)],
  dict(faces=h.I("faces", "F", 3) if f else NONE, verts_normals=h.T("normals", "V", 3) if n else NONE, ascii=h.c(asc), decimal_places=h.int("dp") if dp else NONE, path_manager=pm(h))),
  dict(to=["path", "stream"], f=[True, False], n=[False, True], asc=[False, True], dp=[False, True]), f64=False)
E("io.load_ply", lambda h, fr: (IOM + "ply_io:load_ply", [target(h, fr, "x.ply", "rb")], dict(path_manager=pm(h))), dict(fr=["path", "stream"]), f64=False)

EXTS = ["obj", "ply", "off", "glb"]


def io(h):
    o = h.call(IOM + "pluggable:IO", path_manager=pm(h))
    h.m(o, "register_meshes_format", h.call(IOM + "experimental_gltf_io:MeshGlbFormat"))
    return o


def mesh1(h, tex, nrm=False):
    R = "pytorch3d.renderer.mesh.textures:"
    V, F = "V", "F"
    kw = {}
    if tex == "vertex":
        kw["textures"] = h.call(R + "TexturesVertex", h.L(h.T("m.tv", V, 3)))
    elif tex == "atlas":
        kw["textures"] = h.call(R + "TexturesAtlas", h.L(h.T("m.ta", F, 1, 1, 3)))
    elif tex == "uv":
        kw["textures"] = h.call(R + "TexturesUV", h.L(h.T("m.map", "H", "W", 3)), h.L(h.I("m.fuv", F, 3)), h.L(h.T("m.vuv", "U", 2)))
    if nrm:
        kw["verts_normals"] = h.L(h.T("m.vn", V, 3))
    return h.call("pytorch3d.structures.meshes:Meshes", h.L(h.T("m.v", V, 3)), h.L(h.I("m.f", F, 3)), **kw)


def saver(ext, opts, meth="save_mesh"):
    def f(h, **k):
        o = io(h)
        data = h.own("data", mesh1(h, k["tex"], k.get("nrm", False)))
        kw = dict(opts(h, k))
        return lambda: h.it.call_method(o, meth, [data, path(h, "x." + ext)], kw)
    return f


def b(v):
    return {"default": NONE, "binary": TRUE, "ascii": FALSE}[v]


E("io.IO.save_mesh.obj", saver("obj", lambda h, k: dict(decimal_places=h.int("dp"))), dict(tex=[None, "uv"], nrm=[False, True]), f64=False)
E("io.IO.save_mesh.ply", saver("ply", lambda h, k: dict(binary=b(k["binary"]), decimal_places=h.int("dp"), colors_as_uint8=h.c(k["u8"]))),
  dict(tex=[None, "vertex"], nrm=[False, True], binary=["default", "binary", "ascii"], u8=[False, True]), f64=False)
E("io.IO.save_mesh.off", saver("off", lambda h, k: dict(decimal_places=h.int("dp"))), dict(tex=[None, "vertex", "atlas"]), f64=False)
E("io.IO.save_mesh.glb", saver("glb", lambda h, k: {}), dict(tex=[None, "vertex", "uv"]), f64=False)
E("io.IO.load_mesh", lambda h, ext, tex: (lambda o=io(h), p=path(h, "x." + ext): h.it.call_method(o, "load_mesh", [p], dict(include_textures=h.c(tex), device=h.dev()))), dict(ext=["obj", "ply", "off"], tex=[True, False]), f64=False)


def cloud1(h, nrm, feat):
    kw = {}
    if nrm:
        kw["normals"] = h.L(h.T("p.n", "P", 3))
    if feat:
        kw["features"] = h.L(h.T("p.c", "P", 3))
    return h.call("pytorch3d.structures.pointclouds:Pointclouds", h.L(h.T("p.p", "P", 3)), **kw)


E("io.IO.save_pointcloud", lambda h, nrm, feat, binary, u8: (lambda o=io(h), m=h.own("data", cloud1(h, nrm, feat)), p=path(h, "x.ply"), d=h.int("dp"): h.it.call_method(o, "save_pointcloud", [m, p], dict(binary=b(binary), decimal_places=d, colors_as_uint8=h.c(u8)))),
  dict(nrm=[True, False], feat=[True, False], binary=["default", "binary", "ascii"], u8=[False, True]), f64=False)
E("io.IO.load_pointcloud", lambda h: (lambda o=io(h), p=path(h, "x.ply"): h.it.call_method(o, "load_pointcloud", [p], dict(device=h.dev()))), f64=False)
E("io.load_meshes_glb", lambda h, tex: (IOM + "experimental_gltf_io:load_meshes", [path(h, "x.glb"), pm(h)], dict(include_textures=h.c(tex))), dict(tex=[True, False]), f64=False)
E("io.save_off", lambda h, vc, f, fc, dp: (IOM + "off_io:_save_off", [target(h, "path", "x.off", "wb")],
  dict(verts=h.T("verts", "V", 3), verts_colors=h.T("vc", "V", 3) if vc else NONE, faces=h.I("faces", "F", 3) if f else NONE, faces_colors=h.T("fc", "F", 3) if fc else NONE, decimal_places=h.int("dp") if dp else NONE, path_manager=pm(h))),
  dict(vc=[False, True], f=[True], fc=[False, True], dp=[False, True]), f64=False)
E("io.save_off.nofaces", lambda h, vc: (IOM + "off_io:_save_off", [target(h, "path", "x.off", "wb")],
  dict(verts=h.T("verts", "V", 3), verts_colors=h.T("vc", "V", 3) if vc else NONE, faces=NONE, faces_colors=NONE, decimal_places=NONE, path_manager=pm(h))), dict(vc=[False, True]), f64=False)
