"""Lights, materials, blending, shading, rasterization and the renderers."""
from _common import *

R = "pytorch3d.renderer."
RM = R + "mesh."
LT = R + "lighting:"


def lights(h, kind="point", n=2, p="l", vals="tensor"):
    t = (lambda k, w: h.T(f"{p}.{k}", n, w)) if vals == "tensor" else (lambda k, w: h.tup(h.tup(*[h.float(f"{p}.{k}") for _ in range(w)])))
    kw = dict(ambient_color=t("amb", 3), device=h.dev())
    if kind != "ambient":
        kw.update(diffuse_color=t("dif", 3), specular_color=t("spec", 3))
    if kind == "point":
        kw["location"] = t("loc", 3)
    if kind == "directional":
        kw["direction"] = t("dir", 3)
    return h.call(LT + {"point": "PointLights", "directional": "DirectionalLights", "ambient": "AmbientLights"}[kind], **kw)


def materials(h, n=2, p="mat", vals="tensor"):
    t = (lambda k, w: h.T(f"{p}.{k}", n, w)) if vals == "tensor" else (lambda k, w: h.tup(h.tup(*[h.float(f"{p}.{k}") for _ in range(w)])))
    return h.call(R + "materials:Materials", ambient_color=t("amb", 3), diffuse_color=t("dif", 3), specular_color=t("spec", 3),
                  shininess=h.T(p + ".shin", n) if vals == "tensor" else h.float(p + ".shin"), device=h.dev())


observers("PointLights", len=length, **A("ambient_color", "diffuse_color", "specular_color", "location", "device"))
observers("DirectionalLights", len=length, **A("ambient_color", "diffuse_color", "specular_color", "direction", "device"))
observers("AmbientLights", len=length, **A("ambient_color", "device"))
observers("Materials", len=length, **A("ambient_color", "diffuse_color", "specular_color", "shininess", "device"))
LK = ["point", "directional", "ambient"]
CHS = ["self."]
IDX = {"int": lambda h: h.c(1), "slice": lambda h: h.slice(0, 1)}

E("light.init", lambda h, kind, vals: (lambda: lights(h, kind, "N", vals=vals)), dict(kind=LK, vals=["tensor", "scalar"]), f64=False)
E("light.diffuse_fn", lambda h, nd: (LT + "diffuse", [h.T("normals", "N", *(["H", "W", "K"] if nd else []), 3), h.T("color", "N", 3), h.T("direction", "N", 3)]), dict(nd=[0, 1]), f64=False)
E("light.specular_fn", lambda h, nd: (LT + "specular", [], dict(points=h.T("points", "N", *(["H", "W", "K"] if nd else []), 3), normals=h.T("normals", "N", *(["H", "W", "K"] if nd else []), 3), color=h.T("color", "N", 3),
                                                             direction=h.T("direction", "N", 3), camera_position=h.T("campos", "N", 3), shininess=h.T("shin", "N"))), dict(nd=[0, 1]), f64=False)


def EL(name, f, scen=None, kinds=LK, **k):
    def build(h, kind, **s):
        o = h.own("self", materials(h, "N") if kind == "materials" else lights(h, kind, "N"))
        m_, a, kw = f(h, o, kind, **s)
        return lambda: h.it.call_method(o, m_, list(a), kw)
    E("light." + name, build, dict(kind=kinds, **(scen or {})), f64=False, **k)


def pn(h, nd):
    s = ["N"] + (["H", "W", "K"] if nd else []) + [3]
    return dict(normals=h.T("normals", *s), points=h.T("points", *s))


EL("diffuse", lambda h, o, kind, nd: ("diffuse", [], pn(h, nd)), dict(nd=[0, 1]))
EL("specular", lambda h, o, kind, nd: ("specular", [], dict(camera_position=h.T("campos", "N", 3), shininess=h.T("shin", "N"), **pn(h, nd))), dict(nd=[0, 1]))
AM = LK + ["materials"]
EL("clone", lambda h, o, kind: ("clone", [], {}), kinds=AM, carry=True, noalias=True)
EL("to", lambda h, o, kind: ("to", [h.dev("E")], {}), kinds=AM, carry=True, changes=CHS, inplace="self")
EL("getitem", lambda h, o, kind, how: ("__getitem__", [IDX[how](h)], {}), dict(how=list(IDX)), kinds=AM, carry=True)
EL("gather_props", lambda h, o, kind: ("gather_props", [h.I("index", "M")], {}), kinds=AM, carry=True, changes=CHS, inplace="self")
E("materials.init", lambda h, vals: (lambda: materials(h, "N", vals=vals)), dict(vals=["tensor", "scalar"]), f64=False)


# ---- fragments, blending, compositing -----------------------------------------------------------------
def frags(h, n="N", p="fr", dists=True):
    g = lambda k, *s: h.T(f"{p}.{k}", n, "H", "W", "K", *s)
    return h.call(RM + "rasterizer:Fragments", pix_to_face=h.I(p + ".p2f", n, "H", "W", "K"), zbuf=g("zbuf"), bary_coords=g("bary", 3), dists=g("dists") if dists else NONE)


def blend(h, p="bp", bg="tensor"):
    return h.call(R + "blending:BlendParams", sigma=h.float(p + ".sigma"), gamma=h.float(p + ".gamma"),
                  background_color=h.T(p + ".bg", 3) if bg == "tensor" else h.tup(h.float(p + ".bg"), h.float(p + ".bg"), h.float(p + ".bg")))


observers("Fragments", **A("pix_to_face", "zbuf", "bary_coords", "dists"))
E("blend.fragments_detach", lambda h, d: (lambda o=h.own("self", frags(h, dists=d)): h.it.call_method(o, "detach", [], {})), dict(d=[True, False]), f64=False, carry=True, nograd=True)
COL = lambda h: h.T("colors", "N", "H", "W", "K", 3)
E("blend.hard_rgb_blend", lambda h, bg: (R + "blending:hard_rgb_blend", [COL(h), frags(h), blend(h, bg=bg)]), dict(bg=["tensor", "tuple"]), f64=False)
E("blend.sigmoid_alpha_blend", lambda h: (R + "blending:sigmoid_alpha_blend", [COL(h), frags(h), blend(h)]), f64=False)
E("blend.softmax_rgb_blend", lambda h, bg, z: (R + "blending:softmax_rgb_blend", [COL(h), frags(h), blend(h, bg=bg)],
                                               {} if z == "default" else dict(znear=h.T("znear", "N"), zfar=h.T("zfar", "N")) if z == "tensor" else dict(znear=h.float("znear"), zfar=h.float("zfar"))),
  dict(bg=["tensor", "tuple"], z=["default", "scalar", "tensor"]), f64=False)
for f in ("alpha_composite", "norm_weighted_sum", "weighted_sum"):
    E("composite." + f, lambda h, f=f: (R + "compositing:" + f, [h.I("idx", "N", "K", "H", "W"), h.T("alphas", "N", "K", "H", "W"), h.T("features", "C", "P")]), f64=False)
BG = {"none": lambda h, p: NONE, "tensor": lambda h, p: h.T(p + "bg", "C"), "scalar": lambda h, p: h.T(p + "bg"), "list": lambda h, p: h.L(h.float(p + "bg"), h.float(p + "bg"), h.float(p + "bg")),
      "rgb": lambda h, p: h.tup(h.float(p + "bg"), h.float(p + "bg"), h.float(p + "bg"))}
for c in ("AlphaCompositor", "NormWeightedCompositor"):
    def b(h, bg, at, c=c):
        ch = {"list": 3, "rgb": 4}.get(bg, "C")
        o = h.mod(R + "points.compositor:" + c, BG[bg](h, "init.") if at in ("init", "both") else NONE)
        kw = dict(background_color=BG[bg](h, "call.")) if at in ("call", "both") else {}
        x = [h.I("idx", "N", "K", "H", "W"), h.T("alphas", "N", "K", "H", "W"), h.T("features", ch, "P")]
        return lambda: h.it.call(o, x, kw)
    E("composite." + c, b, dict(bg=["none", "tensor", "scalar", "list", "rgb"], at=["init", "call", "both"]), f64=False)


# ---- texture sampling and shading ---------------------------------------------------------------------
def scene(h, tex="vertex", n=2, p="m", normals=False):
    m = meshes(h, p, "list", None, n=n, normals=normals)
    C = 3
    if tex == "vertex":
        t = h.call(RM + "textures:TexturesVertex", h.L(*[h.T(f"{p}.tv{i}", f"{p}V{i}", C) for i in range(n)]))
    elif tex == "atlas":
        t = h.call(RM + "textures:TexturesAtlas", h.L(*[h.T(f"{p}.ta{i}", f"{p}F{i}", "R", "R", C) for i in range(n)]))
    else:
        t = h.call(RM + "textures:TexturesUV", h.T(f"{p}.map", n, "Hm", "Wm", C), h.L(*[h.I(f"{p}.fuv{i}", f"{p}F{i}", 3) for i in range(n)]), h.L(*[h.T(f"{p}.vuv{i}", f"{p}U{i}", 2) for i in range(n)]))
    V = h.L(*[h.T(f"{p}.v{i}", f"{p}V{i}", 3) for i in range(n)])
    F = h.L(*[h.I(f"{p}.f{i}", f"{p}F{i}", 3) for i in range(n)])
    kw = dict(verts_normals=h.L(*[h.T(f"{p}.vn{i}", f"{p}V{i}", 3) for i in range(n)])) if normals else {}
    return h.call("pytorch3d.structures.meshes:Meshes", V, F, t, **kw)


TEX = ["vertex", "uv", "atlas"]
E("shading.apply_lighting", lambda h, light, nd: (RM + "shading:_apply_lighting", [h.T("points", "N", *(["H", "W", "K"] if nd else []), 3), h.T("normals", "N", *(["H", "W", "K"] if nd else []), 3), lights(h, light, "N"), cameras(h, "fovp", "N"), materials(h, "N")]),
  dict(light=LK, nd=[0, 1]), f64=False)
for f in ("phong_shading", "flat_shading"):
    E("shading." + f, lambda h, light, n, vn, f=f: (RM + "shading:" + f, [scene(h, "vertex", n, normals=vn), frags(h, n), lights(h, light, n), cameras(h, "fovp", n), materials(h, n), h.T("texels", n, "H", "W", "K", 3)]),
      dict(light=LK, n=[1, 2], vn=[False, True] if f == "phong_shading" else [False]), f64=False)
E("shading.gouraud_shading", lambda h, light, n, one: (RM + "shading:gouraud_shading", [scene(h, "vertex", n), frags(h, n), lights(h, light, 1 if one else n), cameras(h, "fovp", n), materials(h, 1 if one else n)]),
  dict(light=LK, n=[1, 2], one=[False, True]), f64=False)

LIT = ["HardPhongShader", "SoftPhongShader", "HardGouraudShader", "SoftGouraudShader", "HardFlatShader", "SplatterPhongShader"]
ALL = LIT + ["SoftSilhouetteShader", "HardDepthShader", "SoftDepthShader"]


def shader(h, cls, n=2, cams=True, p="s"):
    if cls == "SoftSilhouetteShader":
        return h.call(RM + "shader:" + cls, blend_params=blend(h, p + ".bp"))
    kw = dict(device=h.dev(), lights=lights(h, "point", n, p + ".l"), materials=materials(h, n, p + ".mat"), blend_params=blend(h, p + ".bp"))
    if cams:
        kw["cameras"] = cameras(h, "fovp", n, p + ".c")
    return h.call(RM + "shader:" + cls, **kw)


def over(h, ov, n=2, p="o"):
    """per-call overrides of the stored settings"""
    o = {"cameras": lambda: cameras(h, "fovp", n, p + ".c"), "lights": lambda: lights(h, "directional", n, p + ".l"), "materials": lambda: materials(h, n, p + ".mat"), "blend_params": lambda: blend(h, p + ".bp"),
         "znear": lambda: h.float(p + ".znear"), "zfar": lambda: h.float(p + ".zfar")}
    if ov == "none":
        return {}
    if ov == "all":
        return {k: f() for k, f in o.items()}
    return {ov: o[ov]()}


OVS = ["none", "cameras", "lights", "materials", "blend_params", "znear", "zfar", "all"]
for c in ALL:
    def b(h, tex, n, ov, c=c):
        o = shader(h, c, n)
        a = [frags(h, n), scene(h, tex, n)]
        kw = over(h, ov, n)
        return lambda: h.it.call(o, a, kw)
    E("shader." + c, b, dict(tex=["vertex"] if c not in ("HardPhongShader", "SoftPhongShader", "HardFlatShader") else TEX, n=[1, 2], ov=OVS), f64=False)

def plain(h, c):
    """everything left to the defaults, on the caller's device"""
    o = h.call(RM + "shader:" + c, device=h.dev(), cameras=cameras(h, "fovp", 2, "s.c"))
    a = [frags(h, 2), scene(h, "vertex", 2)]
    return lambda: h.it.call(o, a, {})


for c in ALL:
    if c != "SoftSilhouetteShader":
        E("shader." + c + ".defaults", lambda h, c=c: plain(h, c), f64=False)


def again(h, c, tex):
    """a second call, with images of another size"""
    o = shader(h, c, 2)
    h.call(o, frags(h, 2, "old"), scene(h, tex, 2, "om"))
    f = h.call(RM + "rasterizer:Fragments", pix_to_face=h.I("fr.p2f", 2, "H2", "W2", "K2"), zbuf=h.T("fr.zbuf", 2, "H2", "W2", "K2"), bary_coords=h.T("fr.bary", 2, "H2", "W2", "K2", 3), dists=h.T("fr.dists", 2, "H2", "W2", "K2"))
    m = scene(h, tex, 2)
    return lambda: h.it.call(o, [f, m], {})


E("shader.second_call", lambda h, c: again(h, c, "vertex"), dict(c=ALL), f64=False)
for c in LIT + ["HardDepthShader", "SoftDepthShader"]:
    def b(h, c=c):
        o = h.own("self", shader(h, c, 2))
        return lambda: h.it.call_method(o, "to", [h.dev("E")], {})
    E("shader.to." + c, b, {}, f64=False, changes=CHS, inplace="self", carry=True)
    observers(c, **A("lights", "materials", "cameras", "blend_params"))

# ---- rasterization ------------------------------------------------------------------------------------
RAST = dict(image_size=["HW", "int"], zc=[False, True], cull=[False, True], pc=[True, False])
HWS = lambda h, k: h.tup(h.size("H"), h.size("W")) if k == "HW" else h.size("H")
E("raster.rasterize_meshes", lambda h, image_size, zc, cull, pc: (RM + "rasterize_meshes:rasterize_meshes", [meshes(h, "m")],
  dict(image_size=HWS(h, image_size), blur_radius=h.float("blur"), faces_per_pixel=h.size("K"), bin_size=h.int("bin"), max_faces_per_bin=h.int("mfpb"), perspective_correct=h.c(pc), clip_barycentric_coords=h.bool("clipbary"),
       cull_backfaces=h.bool("cullback"), z_clip_value=h.float("zclip") if zc else NONE, cull_to_frustum=h.c(cull))), RAST, f64=False)
E("raster.clip_faces", lambda h, zc, cull, pc: (RM + "clip:clip_faces", [h.T("fv", "F", 3, 3), h.I("first", "N"), h.I("num", "N")],
  dict(frustum=h.call(RM + "clip:ClipFrustum", left=h.float("left"), right=h.float("right"), top=h.float("top"), bottom=h.float("bottom"), znear=h.float("zn"), zfar=h.float("zf"), perspective_correct=h.c(pc), cull=h.c(cull),
                      z_clip_value=h.float("zclip") if zc else NONE))), dict(zc=[True, False], cull=[True, False], pc=[True, False]), f64=False)
E("raster.rasterize_points", lambda h, image_size, radius, n: (R + "points.rasterize_points:rasterize_points", [clouds(h, "p", n=n) if n != "N" else clouds(h, "p", "padded")],
  dict(image_size=HWS(h, image_size), radius=h.float("radius") if radius == "float" else h.T("radius", n, "pP"), points_per_pixel=h.size("K"), bin_size=h.int("bin"), max_points_per_bin=h.int("mppb"))),
  dict(image_size=["HW", "int"], radius=["float", "tensor"], n=["N"]), f64=False)


def rset(h, p="rs", image="HW", pc=NONE, zc=False, cull=False):
    return h.call(RM + "rasterizer:RasterizationSettings", image_size=HWS(h, image), blur_radius=h.float(p + ".blur"), faces_per_pixel=h.size("K"), bin_size=h.int(p + ".bin"), max_faces_per_bin=h.int(p + ".mfpb"),
                  perspective_correct=pc, clip_barycentric_coords=NONE, cull_backfaces=h.bool(p + ".cullback"), z_clip_value=h.float(p + ".zclip") if zc else NONE, cull_to_frustum=h.c(cull))


CLS = ["fovp", "fovo", "persp", "ortho", "fisheye"]


def rcam(h, cls, n, p):
    return cameras(h, cls, n, p)


def rover(h, ov, cls, n=2):
    if ov == "none":
        return {}
    if ov == "cameras":
        return dict(cameras=rcam(h, cls, n, "o.c"))
    if ov == "rt":
        return dict(R=h.T("o.R", n, 3, 3), T=h.T("o.T", n, 3))
    if ov == "eps":
        return dict(eps=h.float("o.eps"))
    return dict(raster_settings=rset(h, "o.rs"))


def emr(h, cls, ov, n):
    o = h.call(RM + "rasterizer:MeshRasterizer", cameras=rcam(h, cls, n, "c"), raster_settings=rset(h, image="int"))
    m, kw = meshes(h, "m", "list", n=n), rover(h, ov, cls, n)
    return o, m, kw


ROV = ["none", "cameras", "rt", "eps", "settings"]
PINH = CLS[:-1]
E("raster.MeshRasterizer", lambda h, cls, ov, n: (lambda t=emr(h, cls, ov, n): h.it.call(t[0], [t[1]], t[2])), dict(cls=PINH, ov=ROV, n=[1, 2]), f64=False, changes=["c.", "o.c"])
E("raster.MeshRasterizer.fisheye", lambda h, cls, ov, n: (lambda t=emr(h, cls, ov, n): h.it.call(t[0], [t[1]], t[2])), dict(cls=["fisheye"], ov=ROV, n=[1]), f64=False, changes=["c.", "o.c"])
E("raster.MeshRasterizer.transform", lambda h, cls, ov, n: (lambda t=emr(h, cls, ov, n): h.it.call_method(t[0], "transform", [t[1]], t[2])), dict(cls=PINH, ov=ROV[:4], n=[1, 2]), f64=False, changes=["c.", "o.c"])
E("raster.MeshRasterizer.transform.fisheye", lambda h, cls, ov, n: (lambda t=emr(h, cls, ov, n): h.it.call_method(t[0], "transform", [t[1]], t[2])), dict(cls=["fisheye"], ov=ROV[:4], n=[1]), f64=False, changes=["c.", "o.c"])


def prset(h, p="rs", image="HW", radius="float", n=2):
    return h.call(R + "points.rasterizer:PointsRasterizationSettings", image_size=HWS(h, image), radius=h.float(p + ".radius") if radius == "float" else h.T(p + ".radius", n, "pP") if radius == "tensor" else h.T(p + ".radius", n, "pP"), points_per_pixel=h.size("K"), bin_size=h.int(p + ".bin"), max_points_per_bin=h.int(p + ".mppb"))


def epr(h, cls, ov, n):
    o = h.call(R + "points.rasterizer:PointsRasterizer", cameras=rcam(h, cls, n, "c"), raster_settings=prset(h, image="int"))
    kw = rover(h, ov, cls, n) if ov != "settings" else dict(raster_settings=prset(h, "o.rs"))
    return o, clouds(h, "p", "list", n=n), kw


E("raster.PointsRasterizer", lambda h, cls, ov, n: (lambda t=epr(h, cls, ov, n): h.it.call(t[0], [t[1]], t[2])), dict(cls=PINH, ov=ROV, n=[1, 2]), f64=False, changes=["c.", "o.c"])
E("raster.PointsRasterizer.fisheye", lambda h, cls, ov, n: (lambda t=epr(h, cls, ov, n): h.it.call(t[0], [t[1]], t[2])), dict(cls=["fisheye"], ov=ROV, n=[1]), f64=False, changes=["c.", "o.c"])
E("raster.PointsRasterizer.transform", lambda h, cls, ov, n: (lambda t=epr(h, cls, ov, n): h.it.call_method(t[0], "transform", [t[1]], t[2])), dict(cls=PINH, ov=ROV[:4], n=[1, 2]), f64=False, changes=["c.", "o.c"])
E("raster.PointsRasterizer.transform.fisheye", lambda h, cls, ov, n: (lambda t=epr(h, cls, ov, n): h.it.call_method(t[0], "transform", [t[1]], t[2])), dict(cls=["fisheye"], ov=ROV[:4], n=[1]), f64=False, changes=["c.", "o.c"])


def pr(h, comp, ov, n, radius="float"):
    ra = h.call(R + "points.rasterizer:PointsRasterizer", cameras=rcam(h, "fovp", n, "c"), raster_settings=prset(h, image="int", radius=radius, n=n))
    co = h.call(R + "points.compositor:" + comp, h.T("init.bg", "C"))
    o = h.call(R + "points.renderer:PointsRenderer", rasterizer=ra, compositor=co)
    kw = dict(background_color=h.T("o.bg", "C")) if ov == "background" else dict(raster_settings=prset(h, "o.rs")) if ov == "settings" else rover(h, ov, "fovp", n)
    return o, clouds(h, "p", "list" if radius == "float" else "padded", n=n), kw


E("renderer.PointsRenderer.radius", lambda h, comp, ov: (lambda t=pr(h, comp, ov, "N", "tensor"): h.it.call(t[0], [t[1]], t[2])), dict(comp=["AlphaCompositor", "NormWeightedCompositor"], ov=["none", "rt", "background"]), f64=False, changes=["c.", "o.c"])
E("renderer.PointsRenderer", lambda h, comp, ov, n: (lambda t=pr(h, comp, ov, n): h.it.call(t[0], [t[1]], t[2])), dict(comp=["AlphaCompositor", "NormWeightedCompositor"], ov=ROV + ["background"], n=[1, 2]), f64=False, changes=["c.", "o.c"])


def mr(h, cls, sh, ov, n):
    ra = h.call(RM + "rasterizer:MeshRasterizer", cameras=rcam(h, "fovp", n, "c"), raster_settings=rset(h, image="int"))
    o = h.call(RM + "renderer:" + cls, rasterizer=ra, shader=shader(h, sh, n))
    kw = dict(raster_settings=rset(h, "o.rs")) if ov == "settings" else over(h, ov, n)
    return o, scene(h, "vertex", n), kw


E("renderer.MeshRenderer", lambda h, cls, sh, ov, n: (lambda t=mr(h, cls, sh, ov, n): h.it.call(t[0], [t[1]], t[2])),
  dict(cls=["MeshRenderer", "MeshRendererWithFragments"], sh=["SoftPhongShader", "SplatterPhongShader", "SoftSilhouetteShader"], ov=["none", "cameras", "lights", "materials", "blend_params", "settings"], n=[2]), f64=False, changes=["c.", "o.c"])
E("raster.interpolate_zbuf", lambda h: (RM + "utils:_interpolate_zbuf", [h.I("p2f", "N", "H", "W", "K"), h.T("bary", "N", "H", "W", "K", 3), meshes(h, "m", "padded")]), f64=False)
E("raster.clip_barycentric", lambda h: (RM + "utils:_clip_barycentric_coordinates", [h.T("bary", "N", "H", "W", "K", 3)]), f64=False)
SB = R + "splatter_blend:"
E("splatter.SplatterBlender", lambda h: (lambda o=h.call(SB + "SplatterBlender", h.tup(h.size("N"), h.size("H"), h.size("W"), h.size("K")), h.dev()), a=[h.T("colors", "N", "H", "W", "K", 3), h.T("coords", "N", "H", "W", "K", 3), cameras(h, "fovp", "N"), h.B("mask", "N", "H", "W", "K"), blend(h)]: h.it.call(o, a, {})), f64=False)
