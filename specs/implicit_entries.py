"""Implicit rendering: ray bundles, raysamplers, raymarchers, harmonic embedding, volume renderers, sample_pdf."""
from _common import *
from sa import dims
from structures_entries import vol

IM = "pytorch3d.renderer.implicit."
RS = IM + "raysampling:"


def bundle(h, p="rb", n="N", sp=("R",), P="P"):
    return h.call(IM + "utils:RayBundle", origins=h.T(p + ".o", n, *sp, 3), directions=h.T(p + ".d", n, *sp, 3), lengths=h.T(p + ".l", n, *sp, P), xys=h.T(p + ".xy", n, *sp, 2))


def hbundle(h, p="rb", n="N", sp=("R",), P="P"):
    return h.call(IM + "utils:HeterogeneousRayBundle", origins=h.T(p + ".o", n, *sp, 3), directions=h.T(p + ".d", n, *sp, 3), lengths=h.T(p + ".l", n, *sp, P), xys=h.T(p + ".xy", n, *sp, 2),
                  camera_ids=h.I(p + ".ci", "U"), camera_counts=h.I(p + ".cc", "U"))


SP = [("R",), ("H", "W")]
E("implicit.ray_bundle_to_ray_points", lambda h, kind, sp: (IM + "utils:ray_bundle_to_ray_points", [(bundle if kind == "RayBundle" else hbundle)(h, sp=SP[sp])]), dict(kind=["RayBundle", "HeterogeneousRayBundle"], sp=[0, 1]))
E("implicit.ray_bundle_variables_to_ray_points", lambda h, sp: (IM + "utils:ray_bundle_variables_to_ray_points", [h.T("o", "N", *SP[sp], 3), h.T("d", "N", *SP[sp], 3), h.T("l", "N", *SP[sp], "P")]), dict(sp=[0, 1]))

E("implicit.HarmonicEmbedding", lambda h, log, app, cov: (lambda m=h.mod(IM + "harmonic_embedding:HarmonicEmbedding", h.c(4), h.float("omega"), h.c(log), h.c(app)), x=h.T("x", "N", "M", 3), c=h.T("cov", "N", "M", 3) if cov else NONE: h.it.call(m, [x], dict(diag_cov=c))),
  dict(log=[True, False], app=[True, False], cov=[False, True]), f64=False)
E("implicit.HarmonicEmbedding.get_output_dim", lambda h, app: (lambda m=h.mod(IM + "harmonic_embedding:HarmonicEmbedding", h.c(4), h.float("omega"), h.c(True), h.c(app)): h.it.call_method(m, "get_output_dim", [h.c(3)], {})), dict(app=[True, False]), f64=False)

E("implicit.EmissionAbsorptionRaymarcher", lambda h, eps: (lambda m=h.mod(IM + "raymarching:EmissionAbsorptionRaymarcher", surface_thickness=h.int("thickness", 1)), d=h.T("densities", "N", "R", "P", 1), f=h.T("features", "N", "R", "P", "C"), e=h.float("eps"): h.it.call(m, [], dict(rays_densities=d, rays_features=f, **({"eps": e} if eps else {})))),
  dict(eps=[False, True]))
E("implicit.AbsorptionOnlyRaymarcher", lambda h: (lambda m=h.mod(IM + "raymarching:AbsorptionOnlyRaymarcher"), d=h.T("densities", "N", "R", "P", 1): h.it.call(m, [], dict(rays_densities=d))))


def sampler(h, kind, unit=True, strat=False, rays="none", p="s", pts=None):
    f = lambda k: h.float(f"{p}.{k}")
    npt = h.size(p + ".npts") if pts is None else h.c(pts)
    kw = dict(unit_directions=h.c(unit), stratified_sampling=h.c(strat))
    if rays == "image":
        kw["n_rays_per_image"] = h.size(p + ".nrays")
    if rays == "total":
        kw["n_rays_total"] = h.size(p + ".nrays")
    if kind == "mc":
        if rays == "total":
            kw["n_rays_per_image"] = NONE
        elif rays == "none":
            kw["n_rays_per_image"] = h.size(p + ".nrays")
        return h.mod(RS + "MonteCarloRaysampler", f("minx"), f("maxx"), f("miny"), f("maxy"), n_pts_per_ray=npt, min_depth=f("mind"), max_depth=f("maxd"), **kw)
    if kind == "multinomial":
        return h.mod(RS + "MultinomialRaysampler", min_x=f("minx"), max_x=f("maxx"), min_y=f("miny"), max_y=f("maxy"), image_width=h.size("W"), image_height=h.size("H"), n_pts_per_ray=npt, min_depth=f("mind"), max_depth=f("maxd"), **kw)
    return h.mod(RS + "NDCMultinomialRaysampler", image_width=h.size("W"), image_height=h.size("H"), n_pts_per_ray=npt, min_depth=f("mind"), max_depth=f("maxd"), **kw)


def rs_over(h, ov):
    if ov == "none":
        return {}
    if ov == "mask":
        return dict(mask=h.B("mask", "N", "H", "W"))
    if ov == "depths":
        return dict(min_depth=h.float("o.mind"), max_depth=h.float("o.maxd"))
    if ov == "npts":
        return dict(n_pts_per_ray=h.size("o.npts"))
    if ov == "nrays":
        return dict(n_rays_per_image=h.size("o.nrays"))
    if ov == "total":
        return dict(n_rays_total=h.size("o.nrays"))
    if ov == "nrays+mask":
        return dict(n_rays_per_image=h.size("o.nrays"), mask=h.B("mask", "N", "H", "W"))
    if ov == "total+mask":
        return dict(n_rays_total=h.size("o.nrays"), mask=h.B("mask", "N", "H", "W"))
    if ov == "strat":
        return dict(stratified_sampling=h.c(True))
    if ov == "nostrat":
        return dict(stratified_sampling=h.c(False))
    raise KeyError(ov)


PIN = ["fovp", "fovo", "persp", "ortho"]
E("implicit.MultinomialRaysampler", lambda h, cls, unit, ov: (lambda m=sampler(h, "multinomial", unit), c=cameras(h, cls), kw=rs_over(h, ov): h.it.call(m, [c], kw)),
  dict(cls=PIN, unit=[True, False], ov=["none", "mask", "depths", "npts", "nrays", "total", "nrays+mask", "total+mask", "strat"]), f64=False, changes=["c."], rng="any")
E("implicit.NDCMultinomialRaysampler", lambda h, unit, strat, rays, ov: (lambda m=sampler(h, "ndc", unit, strat, rays), c=cameras(h, "fovp"), kw=rs_over(h, ov): h.it.call(m, [c], kw)),
  dict(unit=[True, False], strat=[False, True], rays=["none", "image", "total"], ov=["none", "mask", "depths", "npts", "strat", "nostrat"]), f64=False, changes=["c."], rng="any")
E("implicit.MonteCarloRaysampler", lambda h, unit, strat, rays, ov: (lambda m=sampler(h, "mc", unit, strat, rays), c=cameras(h, "fovp"), kw=rs_over(h, ov): h.it.call(m, [c], kw)),
  dict(unit=[True, False], strat=[False, True], rays=["image", "total"], ov=["none", "strat", "nostrat"]), f64=False, changes=["c."], rng="any")
E("implicit.GridRaysampler", lambda h: (lambda f=[h.float(x) for x in ("minx", "maxx", "miny", "maxy")], c=cameras(h, "fovp"), W=h.size("W"), H=h.size("H"), P=h.size("P"), d=[h.float("mind"), h.float("maxd")]: h.it.call(h.call(RS + "GridRaysampler", *f, W, H, P, *d), [c], {})), f64=False, changes=["c."])
E("implicit.NDCGridRaysampler", lambda h: (lambda c=cameras(h, "fovp"), W=h.size("W"), H=h.size("H"), P=h.size("P"), d=[h.float("mind"), h.float("maxd")]: h.it.call(h.call(RS + "NDCGridRaysampler", W, H, P, *d), [c], {})), f64=False, changes=["c."])
E("implicit.jiggle", lambda h: (RS + "_jiggle_within_stratas", [h.T("z", "N", "R", "P")]), rng="any")
E("implicit.safe_multinomial", lambda h: (RS + "_safe_multinomial", [h.T("w", "N", "M"), h.size("K")]), rng="any")

E("implicit.sample_pdf", lambda h, det, nd, py: (IM + "sample_pdf:" + ("sample_pdf_python" if py else "sample_pdf"), [h.T("bins", *(["N", "R"][:nd]), dims.add(dims.sym("P"), 1), grad=py), h.T("weights", *(["N", "R"][:nd]), "P", grad=py), h.size("K")], dict(det=h.c(det), eps=h.float("eps"))),
  dict(det=[True, False], nd=[1, 2], py=[False, True]), f64=False, rng="any")


def vren(h, feats, mode, rays, rm):
    m = h.mod(IM + "renderer:VolumeRenderer", raysampler=sampler(h, "ndc", True, False, rays), raymarcher=h.mod(IM + "raymarching:" + rm), sample_mode=h.c(mode))
    return m, cameras(h, "fovp", "N"), vol(h, "padded", feats)


E("implicit.VolumeRenderer", lambda h, feats, mode, rays: (lambda t=vren(h, feats, mode, rays, "EmissionAbsorptionRaymarcher"): h.it.call(t[0], [], dict(cameras=t[1], volumes=t[2]))),
  dict(feats=[True], mode=["bilinear", "nearest"], rays=["none", "image"]), f64=False, changes=["c."], rng="any")
E("implicit.VolumeRenderer.absorption", lambda h, feats: (lambda t=vren(h, feats, "bilinear", "none", "AbsorptionOnlyRaymarcher"): h.it.call(t[0], [], dict(cameras=t[1], volumes=t[2]))), dict(feats=[True, False]), f64=False, changes=["c."])
E("implicit.VolumeSampler", lambda h, feats, sp, pad: (lambda m=h.mod(IM + "renderer:VolumeSampler", vol(h, "padded", feats), padding_mode=h.c(pad)), b=bundle(h, sp=SP[sp]): h.it.call(m, [b], {})),
  dict(feats=[True, False], sp=[0, 1], pad=["zeros", "border"]), f64=False)
E("implicit.ImplicitRenderer", lambda h, scale, rays, ov: (lambda m=h.mod(IM + "renderer:ImplicitRenderer", raysampler=sampler(h, "ndc", True, False, rays), raymarcher=h.mod(IM + "raymarching:EmissionAbsorptionRaymarcher")), f=h.ref("verif_stubs:volume_fn"), c=cameras(h, "fovp"),
                                                           kw=dict({"scale": h.T("scale", 1)} if scale else {}, **({"eps": h.float("eps")} if ov == "eps" else rs_over(h, ov))): h.it.call(m, [c, f], kw)),
  dict(scale=[False, True], rays=["none", "image"], ov=["none", "eps", "mask", "npts", "strat"]), f64=False, changes=["c."], rng="any")
