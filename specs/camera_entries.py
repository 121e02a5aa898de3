from _common import *

C = "pytorch3d.renderer.cameras:"
CLS = ["fovp", "fovo", "persp", "persp_s", "ortho", "ortho_s", "fisheye"]


def cam(h, cls, p="c", n="N", K=False):
    ndc = not cls.endswith("_s")
    base = cls[:-2] if not ndc else cls
    return cameras(h, base, n, p, K, ndc, imsize=True if base in ("persp", "ortho") else None)


OWN = {"fovp": ["znear", "zfar", "aspect_ratio", "fov"], "fovo": ["znear", "zfar", "max_y", "min_y", "max_x", "min_x", "scale_xyz"],
       "persp": ["focal_length", "principal_point"], "ortho": ["focal_length", "principal_point"], "fisheye": []}


def overrides(h, cls, which, n="N"):
    """per-call camera overrides"""
    base = cls[:-2] if cls.endswith("_s") else cls
    kw = {}
    if which in ("rt", "all"):
        kw.update(R=h.T("o.R", n, 3, 3), T=h.T("o.T", n, 3))
    if which in ("own", "all"):
        for k in OWN[base]:
            kw[k] = h.T("o." + k, n, 3) if k == "scale_xyz" else h.T("o." + k, n, 2) if k in ("focal_length", "principal_point") else h.T("o." + k, n)
    if which == "K":
        kw["K"] = h.T("o.K", n, 4, 4)
    return kw


def EC(name, f, scen=None, cls=CLS, K=[False], **k):
    def build(h, cls, K, **s):
        o = h.own("self", cam(h, cls, K=K))
        m_, a, kw = f(h, o, cls, **s)
        return lambda: h.it.call_method(o, m_, list(a), kw)
    E("camera." + name, build, dict(cls=cls, K=K, **(scen or {})), **{"f64": False, **k})


PIN = ["fovp", "fovo", "persp", "persp_s", "ortho", "ortho_s"]
OV = ["none", "rt", "own", "all", "K"]
CH = ["self."]      # overrides are stored on the camera, as documented
E("camera.init", lambda h, cls, vals: (lambda: cameras(h, cls, vals=vals)), dict(cls=["fovp", "fovo", "persp", "ortho", "fisheye"], vals=["tensor", "scalar"]), f64=False)
EC("get_projection_transform", lambda h, o, cls, ov: ("get_projection_transform", [], overrides(h, cls, ov)), dict(ov=["none", "own", "K"]), cls=PIN, K=[False, True], changes=CH)
EC("get_world_to_view_transform", lambda h, o, cls, ov: ("get_world_to_view_transform", [], overrides(h, cls, ov)), dict(ov=["none", "rt"]), changes=CH)
EC("get_camera_center", lambda h, o, cls, ov: ("get_camera_center", [], overrides(h, cls, ov)), dict(ov=["none", "rt"]), changes=CH)
EC("get_full_projection_transform", lambda h, o, cls, ov: ("get_full_projection_transform", [], overrides(h, cls, ov)), dict(ov=OV), cls=PIN, changes=CH)
EC("get_ndc_camera_transform", lambda h, o, cls: ("get_ndc_camera_transform", [], {}), cls=PIN)
EC("get_ndc_camera_transform.image_size", lambda h, o, cls: ("get_ndc_camera_transform", [], dict(image_size=h.T("o.imsize", "N", 2))), cls=["persp_s", "ortho_s"])
EC("transform_points", lambda h, o, cls, ov, nd: ("transform_points", [h.T("points", *(("P", 3) if nd == 2 else ("N", "P", 3)))], overrides(h, cls, ov)), dict(ov=OV, nd=[2, 3]), cls=PIN, changes=CH)
EC("transform_points.eps", lambda h, o, cls: ("transform_points", [h.T("points", "N", "P", 3)], dict(eps=h.float("eps"))), cls=PIN)
EC("transform_points_ndc", lambda h, o, cls, ov: ("transform_points_ndc", [h.T("points", "N", "P", 3)], dict(eps=h.float("eps"), **overrides(h, cls, ov))), dict(ov=OV), cls=PIN, changes=CH)
EC("transform_points_screen", lambda h, o, cls, ov, flip, im: ("transform_points_screen", [h.T("points", "N", "P", 3)], dict(with_xyflip=h.c(flip), eps=h.float("eps"), **({"image_size": h.T("o.imsize", "N", 2)} if im else {}), **overrides(h, cls, ov))),
   dict(ov=["none", "all"], flip=[True, False], im=[True]), cls=PIN, changes=CH)
EC("transform_points_screen.own_size", lambda h, o, cls, flip: ("transform_points_screen", [h.T("points", "N", "P", 3)], dict(with_xyflip=h.c(flip))), dict(flip=[True, False]), cls=["persp", "persp_s", "ortho", "ortho_s"])
EC("unproject_points", lambda h, o, cls, ov, world, sc: ("unproject_points", [h.T("xyd", "N", "P", 3)], dict(world_coordinates=h.c(world), **({"scaled_depth_input": h.c(sc)} if cls.startswith("fov") else {"from_ndc": h.c(sc)}), **overrides(h, cls, ov))),
   dict(ov=OV, world=[True, False], sc=[True, False]), cls=PIN, changes=CH)
EC("unproject_points.image_size", lambda h, o, cls, world: ("unproject_points", [h.T("xyd", "N", "P", 3)], dict(world_coordinates=h.c(world), from_ndc=h.c(True), image_size=h.T("o.imsize", "N", 2))), dict(world=[True, False]), cls=["persp_s", "ortho_s"], changes=CH)
PTS = lambda h, nm, nd: h.T(nm, *((1, "P", 3) if nd == 3 else ("P", 3)))
EC("fisheye.transform_points", lambda h, o, cls, w, nd: ("transform_points", [PTS(h, "points", nd)], dict(R=h.T("o.R", "N", 3, 3), T=h.T("o.T", "N", 3)) if w else {}), dict(w=[False, True], nd=[2, 3]), cls=["fisheye"], changes=CH)
EC("fisheye.unproject_points", lambda h, o, cls, w, nd: ("unproject_points", [PTS(h, "xyd", nd)], dict(world_coordinates=h.c(w))), dict(w=[False, True], nd=[2, 3]), cls=["fisheye"], changes=CH)


def fw(h, n, use, which):
    o = h.call("pytorch3d.renderer.fisheyecameras:FishEyeCameras", h.T("c.focal", n, 1), h.T("c.pp", n, 2), h.T("c.rad", n, 6), h.T("c.tan", n, 2), h.T("c.thin", n, 4), R=h.T("c.R", n, 3, 3), T=h.T("c.T", n, 3), world_coordinates=TRUE,
               use_radial=h.c("r" in use), use_tangential=h.c("t" in use), use_thin_prism=h.c("p" in use), device=h.dev())
    x = h.T("points", "P", 3)
    return lambda: h.it.call_method(o, which, [x], {})


E("camera.fisheye.world", fw, dict(n=[1], use=["rtp", "r", "t", "p", ""], which=["transform_points", "unproject_points"]), f64=False)
EC("clone", lambda h, o, cls: ("clone", [], {}), K=[False, True], carry=True, noalias=True)
EC("to", lambda h, o, cls: ("to", [h.dev("E")], {}), K=[False, True], carry=True, changes=CH, inplace="self")
IDX = ["int", "list", "long", "bool"]
EC("getitem", lambda h, o, cls, how: ("__getitem__", [{"int": lambda: h.c(1), "list": lambda: h.L(h.c(1), h.c(0)), "long": lambda: h.I("index", "M"), "bool": lambda: h.B("index", "N")}[how]()], {}), dict(how=IDX), cls=CLS[:-1], K=[False, True], carry=True)
EC("get_znear", lambda h, o, cls: ("get_znear", [], {}))
EC("get_image_size", lambda h, o, cls: ("get_image_size", [], {}))
E("camera.get_ndc_to_screen_transform", lambda h, cls, flip, im, fn: (C + fn, [cam(h, cls)], dict(with_xyflip=h.c(flip), **({"image_size": h.T("imsize", "N", 2) if im == "tensor" else h.tup(h.tup(h.int("H"), h.int("W")))} if im else {}))),
  dict(cls=["fovp", "persp"], flip=[False, True], im=["tensor", "tuple"], fn=["get_ndc_to_screen_transform", "get_screen_to_ndc_transform"]), f64=False)

# ---- view construction ------------------------------------------------------------------------------
E("camera.world_to_view", lambda h: (C + "get_world_to_view_transform", [h.T("R", "N", 3, 3), h.T("T", "N", 3)]), f64=False)
E("camera.position_from_spherical_angles", lambda h, v, deg: (C + "camera_position_from_spherical_angles", [h.T("dist", "N"), h.T("elev", "N"), h.T("azim", "N")] if v == "tensor" else [h.float("dist"), h.float("elev"), h.float("azim")], dict(degrees=h.c(deg), device=h.dev())),
  dict(v=["tensor", "scalar"], deg=[True, False]), f64=False)
E("camera.look_at_rotation", lambda h, v: (C + "look_at_rotation", [h.T("pos", "N", 3)], dict(at=h.T("at", "N", 3), up=h.T("up", "N", 3), device=h.dev()) if v == "tensor" else dict(at=h.tup(h.tup(h.float("at"), h.float("at"), h.float("at"))), up=h.tup(h.tup(h.float("up"), h.float("up"), h.float("up"))), device=h.dev())), dict(v=["tensor", "tuple"]))
E("camera.look_at_view_transform", lambda h, v, deg: (C + "look_at_view_transform", [h.T("dist", "N"), h.T("elev", "N"), h.T("azim", "N")] if v == "tensor" else [h.float("dist"), h.float("elev"), h.float("azim")],
  dict(degrees=h.c(deg), at=h.T("at", "N", 3), up=h.T("up", "N", 3), device=h.dev())), dict(v=["tensor", "scalar"], deg=[True, False]), f64=False)
E("camera.look_at_view_transform.eye", lambda h: (C + "look_at_view_transform", [], dict(eye=h.T("eye", "N", 3), at=h.T("at", "N", 3), up=h.T("up", "N", 3), device=h.dev())), f64=False)
CU = "pytorch3d.renderer.camera_utils:"
T3 = "pytorch3d.transforms.transform3d:"
E("camera.camera_to_eye_at_up", lambda h: (CU + "camera_to_eye_at_up", [h.call(T3 + "Transform3d", matrix=h.T("m", "N", 4, 4))]))
E("camera.rotate_on_spot", lambda h, nd: (CU + "rotate_on_spot", [h.T("R", *(("N", 3, 3) if nd == 3 else (3, 3))), h.T("T", *(("N", 3) if nd == 3 else (3,))), h.T("rot", *(("N", 3, 3) if nd == 3 else (3, 3)))]), dict(nd=[2, 3]))
E("camera.join_cameras_as_batch", lambda h, cls, K: (CU + "join_cameras_as_batch", [h.L(cam(h, cls, "a", K=K), cam(h, cls, "b", "M", K=K))]), dict(cls=CLS[:-1], K=[False, True]), f64=False, carry=True)
CC = "pytorch3d.renderer.camera_conversions:"
PC = "pytorch3d.utils.camera_conversions:"
OCV = lambda h: [h.T("R", "N", 3, 3), h.T("tvec", "N", 3), h.T("K", "N", 3, 3), h.T("imsize", "N", 2)]
E("camera.cameras_from_opencv_projection", lambda h: (PC + "cameras_from_opencv_projection", OCV(h)), f64=False)
E("camera.opencv_from_cameras_projection", lambda h: (PC + "opencv_from_cameras_projection", [cam(h, "persp"), h.T("imsize", "N", 2)]), f64=False)
E("camera.pulsar_from_opencv_projection", lambda h: (PC + "pulsar_from_opencv_projection", OCV(h), dict(znear=h.float("znear"))), f64=False)
E("camera.pulsar_from_cameras_projection", lambda h: (PC + "pulsar_from_cameras_projection", [cam(h, "persp"), h.T("imsize", "N", 2)]), f64=False)
RU = "pytorch3d.renderer.utils:"
E("render_utils.ndc_grid_sample", lambda h, ac: (RU + "ndc_grid_sample", [h.T("input", "N", "C", "H", "W"), h.T("grid", "N", "P", 2)], dict(align_corners=h.c(ac))), dict(ac=[False, True]))
E("render_utils.ndc_to_grid_sample_coords", lambda h: (RU + "ndc_to_grid_sample_coords", [h.T("xy", "N", "P", 2), h.tup(h.size("H"), h.size("W"))]))
E("render_utils.convert_to_tensors_and_broadcast", lambda h: (RU + "convert_to_tensors_and_broadcast", [h.T("a", "N", 3), h.T("b", 1), h.float("c")], dict(device=h.dev(), dtype=Sc("dtype", h.f))))
