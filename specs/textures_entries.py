"""Texture classes used directly (outside a Meshes)."""
from _common import *
from structures_entries import EM, index, frags
from sa.dims import dmax

TX = "pytorch3d.renderer.mesh.textures:"
KIND = ["vertex", "uv", "atlas"]


def tex_obj(h, kind="vertex", src="list", p="t", n=2, opts="default"):
    nn = n if src == "list" else "N"
    if kind == "uvm":
        # several maps per mesh
        lst = src == "list"
        maps = h.L(*[h.T(f"{p}.map{i}", "M", "Hm", "Wm", "C") for i in range(n)]) if opts == "maplist" else h.T(f"{p}.map", nn, "M", "Hm", "Wm", "C")
        f = h.L(*[h.I(f"{p}.fuv{i}", f"{p}F{i}", 3) for i in range(n)]) if lst else h.I(f"{p}.fuv", "N", f"{p}F", 3)
        v = h.L(*[h.T(f"{p}.vuv{i}", f"{p}U{i}", 2) for i in range(n)]) if lst else h.T(f"{p}.vuv", "N", f"{p}U", 2)
        ids = h.L(*[h.I(f"{p}.ids{i}", f"{p}F{i}") for i in range(n)]) if lst else h.I(f"{p}.ids", "N", f"{p}F")
        return h.call(TX + "TexturesUV", maps, f, v, maps_ids=ids)
    if kind == "uv" and opts != "default":
        lst = src == "list"
        maps = h.L(*[h.T(f"{p}.map{i}", f"Hm{i}", f"Wm{i}", "C") for i in range(n)]) if opts == "maplist" else h.T(f"{p}.map", nn, "Hm", "Wm", "C")
        f = h.L(*[h.I(f"{p}.fuv{i}", f"{p}F{i}", 3) for i in range(n)]) if lst else h.I(f"{p}.fuv", "N", f"{p}F", 3)
        v = h.L(*[h.T(f"{p}.vuv{i}", f"{p}U{i}", 2) for i in range(n)]) if lst else h.T(f"{p}.vuv", "N", f"{p}U", 2)
        return h.call(TX + "TexturesUV", maps, f, v, align_corners=h.c(opts == "align"), padding_mode=h.c("zeros"), sampling_mode=h.c("nearest"))
    return textures(h, kind, p, src, n)


def mk(h, kind=None, tex=None, **k):
    return tex_obj(h, tex, kind)


def ET(name, f, scen=None, **k):
    EM("textures." + name, f, scen, mk=mk, **k)


KS = dict(kind=["list", "padded"], tex=KIND + ["uvm"])
E("textures.init", lambda h, tex, kind, opts: (lambda: tex_obj(h, tex, kind, opts=opts)), dict(tex=["uv", "uvm"], kind=["list", "padded"], opts=["default", "noalign", "align"]), f64=False)
E("textures.init.maplist", lambda h, tex: (lambda: tex_obj(h, tex, "list", opts="maplist")), dict(tex=["uv", "uvm"]), f64=False)
ET("clone", lambda h, o: ("clone", []), KS, noalias=True, carry=True)
ET("detach", lambda h, o: ("detach", []), KS, nograd=True, carry=True)
ET("to", lambda h, o: ("to", [h.dev("E")]), KS, carry=True, inplace="self", changes=["self."])
ET("getitem", lambda h, o, how: ("__getitem__", [index(h, how)]), dict(kind=["list"], tex=KIND + ["uvm"], how=["int", "slice", "list", "long", "bool"]), carry=True)
ET("extend", lambda h, o: ("extend", [h.c(3)]), KS, carry=True)
ET("faces_verts_textures_packed", lambda h, o, : ("faces_verts_textures_packed", []), dict(kind=["list", "padded"], tex=["uv", "atlas", "uvm"]), f64=False)
ET("faces_verts_textures_packed.vertex", lambda h, o: ("faces_verts_textures_packed", [], dict(faces_packed=h.I("faces", "F", 3))), dict(kind=["list", "padded"], tex=["vertex"]))
ET("sample_textures", lambda h, o: ("sample_textures", [frags(h, 2)]), dict(kind=["list"], tex=["uv", "atlas", "uvm"]), f64=False)
ET("sample_textures.vertex", lambda h, o: ("sample_textures", [frags(h, 2)], dict(faces_packed=h.I("faces", "F", 3))), dict(kind=["list"], tex=["vertex"]), f64=False)
ET("submeshes", lambda h, o: ("submeshes", [h.L(h.L(h.I("vi0", "A0"), h.I("vi1", "B0")), h.L(h.I("vi2", "C0"))), h.L(h.L(h.I("fi0", "A"), h.I("fi1", "B")), h.L(h.I("fi2", "C3")))]), dict(kind=["list"], tex=KIND), carry=True)
E("textures.join_batch", lambda h, tex, n: (lambda o=h.own("self", tex_obj(h, tex, "list")), l=h.own("others", h.L(*[tex_obj(h, tex, "list", f"o{i}") for i in range(n)])): h.it.call_method(o, "join_batch", [l], {})), dict(tex=KIND, n=[1, 2]), carry=True)
ET("join_scene", lambda h, o: ("join_scene", []), dict(kind=["list", "padded"], tex=KIND), carry=True)
E("textures.sample_opts", lambda h, opts: (lambda o=tex_obj(h, "uv", "list", opts=opts): h.it.call_method(o, "sample_textures", [frags(h, 2)], {})), dict(opts=["noalign", "align", "maplist"]), f64=False)
E("textures.centers_for_image", lambda h, src: (lambda o=tex_obj(h, "uv", src, n=1): h.it.call_method(o, "centers_for_image", [h.c(0)], {})), dict(src=["list"]), f64=False, nobackward=True)
E("textures.Textures", lambda h, rgb: (lambda kw=dict(verts_rgb=h.T("rgb", "N", "V", "C")) if rgb else dict(maps=h.T("maps", "N", "Hm", "Wm", "C"), faces_uvs=h.I("fuv", "N", "F", 3), verts_uvs=h.T("vuv", "N", "U", 2)): h.call(TX + "Textures", **kw)), dict(rgb=[True, False]), f64=False)
MU = "pytorch3d.renderer.mesh.utils:"


# ---- padded textures of meshes of different sizes: the meshes tell them the numbers of vertices and faces
def owned(h, kind=None, tex=None, norm=None):
    k, n = "padded", h.count(2)
    mx = lambda a: dmax([h.d(f"t{a}{i}") for i in range(n)])
    if tex == "vertex":
        t = h.call(TX + "TexturesVertex", h.T("t.tv", n, mx("V"), "C"))
    elif tex == "atlas":
        t = h.call(TX + "TexturesAtlas", h.T("t.ta", n, mx("F"), "R", "R", "C"))
    else:
        m = h.T("t.map", n, "Hm", "Wm", "C") if tex == "uv" else h.T("t.map", n, "M", "Hm", "Wm", "C")
        kw = dict(maps_ids=h.I("t.ids", n, mx("F"))) if tex == "uvm" else {}
        t = h.call(TX + "TexturesUV", m, h.I("t.fuv", n, mx("F"), 3), h.T("t.vuv", n, "U", 2), **kw)
    return h.get(meshes(h, "t", "list", textures=t), "textures")


def EO(name, f, scen=None, **k):
    EM("textures.owned." + name, f, scen, mk=owned, **k)


KO = dict(tex=KIND + ["uvm"])
EO("clone", lambda h, o: ("clone", []), KO, noalias=True, carry=True)
EO("detach", lambda h, o: ("detach", []), KO, nograd=True, carry=True)
EO("to", lambda h, o: ("to", [h.dev("E")]), KO, carry=True, inplace="self", changes=["self."])
EO("getitem", lambda h, o, how: ("__getitem__", [index(h, how)]), dict(tex=KIND + ["uvm"], how=["int", "slice", "list", "bool"]), carry=True)
EO("extend", lambda h, o: ("extend", [h.c(3)]), KO, carry=True)
EO("sample_textures", lambda h, o: ("sample_textures", [frags(h, 2)]), dict(tex=["uv", "atlas", "uvm"]), f64=False)
EO("faces_verts_textures_packed", lambda h, o, : ("faces_verts_textures_packed", []), dict(tex=["uv", "atlas", "uvm"]), f64=False)
EO("join_scene", lambda h, o: ("join_scene", []), dict(tex=KIND), carry=True)
