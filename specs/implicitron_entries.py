"""Implicitron: renderers, ray samplers, implicit functions, encoders, view pooling, models, metrics, tools."""
from _common import *
from sa import dims

IT = "pytorch3d.implicitron."
RB = IT + "models.renderer.base:"
RR = IT + "models.renderer."
MODES = {"train": "TRAINING", "eval": "EVALUATION"}


def mode(h, m):
    return h.ref(RB + "EvaluationMode." + MODES[m])


def ibundle(h, p="rb", n="N", sp=("R",), P="P", bins=False, packed=False, radii=False):
    kw = dict(origins=h.T(p + ".o", n, *sp, 3), directions=h.T(p + ".d", n, *sp, 3), lengths=NONE if bins else h.T(p + ".l", n, *sp, P), xys=h.T(p + ".xy", n, *sp, 2))
    if bins:
        kw["bins"] = h.T(p + ".bins", n, *sp, dims.add(dims.sym(P), 1) if isinstance(P, str) else P + 1)
    if radii:
        kw["pixel_radii_2d"] = h.T(p + ".radii", n, *sp, 1)
    if packed:
        kw.update(camera_ids=h.I(p + ".ci", "U"), camera_counts=h.I(p + ".cc", "U"))
    return h.call(RB + "ImplicitronRayBundle", **kw)


observers("ImplicitronRayBundle", **A("origins", "directions", "lengths", "xys", "bins", "pixel_radii_2d", "camera_ids", "camera_counts"), **M("is_packed"))
observers("RendererOutput", **A("features", "depths", "masks", "prev_stage", "normals", "points", "weights", "aux"))


def conf(h, path, **kw):
    """a component, moved to the device of the inputs"""
    return h.mod(IT + path, **{k: h.c(v) if isinstance(v, (int, float, str, bool, tuple, type(None))) else v for k, v in kw.items()})


def wrapped(h, name):
    return h.call(RB + "ImplicitFunctionWrapper", h.mod("verif_stubs:" + name))


# ---- rays ----------------------------------------------------------------------------------------------
E("impl.RayBundle", lambda h, kind, packed: (lambda: ibundle(h, bins=kind != "lengths", radii=kind == "radii", packed=packed)), dict(kind=["lengths", "bins", "radii"], packed=[False, True]), f64=False)
E("impl.RayBundle.float_", lambda h, kind: (lambda o=h.own("self", ibundle(h, bins=kind != "lengths", radii=kind == "radii")): (h.it.call_method(o, "float_", [], {}), o)[1]), dict(kind=["lengths", "bins", "radii"]), f64=False, inplace="self", changes=["self."])
E("impl.RayBundle.get_padded_xys", lambda h: (lambda o=h.own("self", ibundle(h, n="N", sp=(1,), packed=True)): h.it.call_method(o, "get_padded_xys", [], {})), f64=False)
E("impl.compute_3d_diagonal_covariance_gaussian", lambda h: (RB + "compute_3d_diagonal_covariance_gaussian", [h.T("dirs", "N", "R", 3), h.T("dvar", "N", "R", "P"), h.T("rvar", "N", "R", "P")]))
E("impl.approximate_conical_frustum_as_gaussians", lambda h: (RB + "approximate_conical_frustum_as_gaussians", [h.T("bins", "N", "R", dims.add(dims.sym("P"), 1)), h.T("radii", "N", "R", 1)]))
E("impl.conical_frustum_to_gaussian", lambda h: (RB + "conical_frustum_to_gaussian", [ibundle(h, bins=True, radii=True)]))


# ---- raymarchers ---------------------------------------------------------------------------------------
def march(h, cls, noise, deltas, **kw):
    m = conf(h, "models.renderer.raymarcher:" + cls, **kw)
    a = [h.T("dens", "N", "R", "P", 1), h.T("feat", "N", "R", "P", "C"), h.D()]
    k = dict(ray_lengths=h.T("l", "N", "R", "P"), density_noise_std=h.c(noise))
    if deltas:
        k["ray_deltas"] = h.T("deltas", "N", "R", "P")
    return lambda: h.it.call(m, a, k)


E("impl.Raymarcher", lambda h, cls, noise, deltas, blend, rep: march(h, cls, noise, deltas, blend_output=blend, replicate_last_interval=rep),
  dict(cls=["EmissionAbsorptionRaymarcher", "CumsumRaymarcher"], noise=[0.0, 0.1], deltas=[False, True], blend=[False, True], rep=[False, True]), f64=False)
E("impl.Raymarcher.opts", lambda h, cls, thick, relu: march(h, cls, 0.0, False, surface_thickness=thick, density_relu=relu), dict(cls=["EmissionAbsorptionRaymarcher", "CumsumRaymarcher"], thick=[1, 2], relu=[True, False]), f64=False)

# ---- refiner, renderers --------------------------------------------------------------------------------
E("impl.RayPointRefiner", lambda h, rnd, add, blur, bins: (lambda m=conf(h, "models.renderer.ray_point_refiner:RayPointRefiner", n_pts_per_ray=8, random_sampling=rnd, add_input_samples=add, blurpool_weights=blur), b=h.own("rb", ibundle(h, bins=bins)), w=h.T("w", "N", "R", "P"): h.it.call(m, [b, w], {})),
  dict(rnd=[False, True], add=[True, False], blur=[False, True], bins=[False, True]), f64=False)
E("impl.apply_blurpool_on_weights", lambda h: (RR + "ray_point_refiner:apply_blurpool_on_weights", [h.T("w", "N", "R", "P")]))
E("impl.MultiPassEARenderer", lambda h, passes, md, bins, noise, w: (lambda m=conf(h, "models.renderer.multipass_ea:MultiPassEmissionAbsorptionRenderer", density_noise_std_train=noise, return_weights=w, n_pts_per_ray_fine_training=8, n_pts_per_ray_fine_evaluation=16),
                                                              b=h.own("rb", ibundle(h, bins=bins)), fs=h.L(*[wrapped(h, "ImplicitFn") for _ in range(passes)]), md=mode(h, md): h.it.call(m, [], dict(ray_bundle=b, implicit_functions=fs, evaluation_mode=md))),
  dict(passes=[1, 2], md=["train", "eval"], bins=[False, True], noise=[0.0, 0.5], w=[False, True]), f64=False)
E("impl.LSTMRenderer", lambda h, bg, md: (lambda m=conf(h, "models.renderer.lstm_renderer:LSTMRenderer", num_raymarch_steps=2, n_feature_channels=8, bg_color=bg), b=h.own("rb", ibundle(h, P=1)), fs=h.L(wrapped(h, "SRNFn")), md=mode(h, md): h.it.call(m, [], dict(ray_bundle=b, implicit_functions=fs, evaluation_mode=md))),
  dict(bg=[None, (1.0,)], md=["train", "eval"]), f64=False)


def tr(h, m, training):
    return h.m(m, "train") if training else h.m(m, "eval")


E("impl.RayTracing", lambda h, training: (lambda m=tr(h, conf(h, "models.renderer.ray_tracing:RayTracing", n_steps=8, sphere_tracing_iters=2, n_secant_steps=2), training), f=h.ref("verif_stubs:sdf_fn"), a=[h.T("loc", "N", "R", 3), h.B("mask", "N", "R"), h.T("dirs", "N", "R", 3)]:
                                     h.it.call(m, [f] + a, {})), dict(training=[False, True]), f64=False)
E("impl.SDFRenderer", lambda h, md: (lambda m=conf(h, "models.renderer.sdf_renderer:SignedDistanceFunctionRenderer", ray_tracer_args=h.D(n_steps=h.c(8), sphere_tracing_iters=h.c(2), n_secant_steps=h.c(2))), b=h.own("rb", ibundle(h)), fs=h.L(wrapped(h, "SDF")), om=h.B("mask", "N", "R", 1), md=mode(h, md):
                                h.it.call(m, [], dict(ray_bundle=b, implicit_functions=fs, evaluation_mode=md, object_mask=om))), dict(md=["train", "eval"]), f64=False)
E("impl.RayNormalColoringNetwork", lambda h, md, wn, harm: (lambda m=conf(h, "models.renderer.rgb_net:RayNormalColoringNetwork", mode=md, weight_norm=wn, n_harmonic_functions_dir=0 if md == "no_view_dir" else harm, dims=(16, 16), d_in=9 if md == "idr" else 6), a=[h.T("feat", "N", "R", 3), h.T("pts", "N", "R", 3), h.T("nrm", "N", "R", 3), h.own("rb", ibundle(h))]:
                                                     h.it.call(m, a, {})), dict(md=["idr", "no_view_dir", "no_normal"], wn=[True, False], harm=[0, 2]), f64=False)


# ---- ray samplers --------------------------------------------------------------------------------------
def rsampler(h, cls, **kw):
    d = dict(image_width=16, image_height=8, n_pts_per_ray_training=4, n_pts_per_ray_evaluation=6, n_rays_per_image_sampled_from_mask=5)
    d.update(kw)
    if cls == "NearFarRaySampler":
        d.update(min_depth=h.float("near"), max_depth=h.float("far"))
    else:
        d.update(scene_extent=h.float("extent"))
    return conf(h, "models.renderer.ray_sampler:" + cls, **d)


RSC = ["AdaptiveRaySampler", "NearFarRaySampler"]
E("impl.RaySampler", lambda h, cls, md, strat, cone, smp: (lambda m=rsampler(h, cls, stratified_point_sampling_training=strat, stratified_point_sampling_evaluation=strat, cast_ray_bundle_as_cone=cone, sampling_mode_training=smp, sampling_mode_evaluation=smp), c=h.own("c", cameras(h, "fovp")), md=mode(h, md):
                                                    h.it.call(m, [c, md], {})), dict(cls=RSC, md=["train", "eval"], strat=[False, True], cone=[False, True], smp=["mask_sample", "full_grid"]), f64=False, changes=["c."])
E("impl.RaySampler.mask", lambda h, cls, md, smp: (lambda m=rsampler(h, cls, stratified_point_sampling_training=False, sampling_mode_training=smp, sampling_mode_evaluation=smp), c=h.own("c", cameras(h, "fovp")), mk=h.T("mask", "N", 1, "Hm", "Wm", grad=False), md=mode(h, md): h.it.call(m, [c, md], dict(mask=mk))),
  dict(cls=RSC, md=["train", "eval"], smp=["mask_sample", "full_grid"]), f64=False, changes=["c."])
E("impl.RaySampler.total", lambda h, cls, md: (lambda m=rsampler(h, cls, n_rays_total_training=7, n_rays_per_image_sampled_from_mask=None), c=h.own("c", cameras(h, "fovp")), md=mode(h, md): h.it.call(m, [c, md], {})), dict(cls=RSC, md=["train", "eval"]), f64=False, changes=["c."])
E("impl.compute_radii", lambda h, sp: (lambda c=h.own("c", cameras(h, "fovp")), xy=h.T("xy", "N", *(["H", "W"] if sp else ["R"]), 2), a=h.tup(h.float("ph"), h.float("pw")): h.call(RR + "ray_sampler:compute_radii", c, xy, a)), dict(sp=[0, 1]), f64=False, changes=["c."])
E("impl.get_min_max_depth_bounds", lambda h, cls: (lambda c=h.own("c", cameras(h, cls)), ctr=h.T("ctr", 3), ext=h.float("ext"): h.call(IT + "tools.camera_utils:get_min_max_depth_bounds", c, ctr, ext)), dict(cls=["fovp", "persp"]), f64=False, changes=["c."])


# ---- implicit functions --------------------------------------------------------------------------------
IF = "models.implicit_function."


def pool_fn(h, dim, src=2):
    """callback of a view pooler: N x n_src x n_pts x dim features, differentiable in the points"""
    m = h.mod("verif_stubs:PoolFn", h.c(dim), h.c(src))
    return m


def code(h, d, n="N"):
    return h.T("code", n, d)


def implicit_fn(h, cls, view, gcode, cam, rb, **kw):
    d = (4 if view else 0) + (6 if gcode else 0)
    if view == "src":
        pass
    m = conf(h, IF + cls, latent_dim=d, **kw)
    k = dict(ray_bundle=rb)
    if view:
        k["fun_viewpool"] = pool_fn(h, 4, 3 if view == "src" else 1)
    if gcode:
        k["global_code"] = code(h, 6)
    if cam:
        k["camera"] = h.own("c", cameras(h, "fovp"))
    return lambda: h.it.call(m, [], k)


NERF = ["neural_radiance_field:NeuralRadianceFieldImplicitFunction", "neural_radiance_field:NeRFormerImplicitFunction"]
E("impl.NeRF", lambda h, view, gcode, cam, sp: implicit_fn(h, NERF[0], view, gcode, cam, h.own("rb", ibundle(h, sp=("H", "W") if sp == 2 else ("R",))), n_hidden_neurons_xyz=16, n_hidden_neurons_dir=8, n_layers_xyz=3, append_xyz=(1,), n_harmonic_functions_xyz=2, n_harmonic_functions_dir=2, xyz_ray_dir_in_camera_coords=cam),
  dict(view=[None, "one"], gcode=[False, True], cam=[False, True], sp=[1, 2]), f64=False, changes=["c."])
E("impl.NeRF.noxyz", lambda h, view, gcode: implicit_fn(h, NERF[0], view, gcode, False, h.own("rb", ibundle(h)), n_hidden_neurons_xyz=16, n_hidden_neurons_dir=8, n_layers_xyz=3, append_xyz=(1,), n_harmonic_functions_xyz=2, n_harmonic_functions_dir=2, input_xyz=False),
  dict(view=["one"], gcode=[False, True]), f64=False, changes=["c."])
E("impl.NeRF.integrated", lambda h: implicit_fn(h, NERF[0], None, False, False, h.own("rb", ibundle(h, bins=True, radii=True)), n_hidden_neurons_xyz=16, n_hidden_neurons_dir=8, n_layers_xyz=3, append_xyz=(1,), n_harmonic_functions_xyz=2, n_harmonic_functions_dir=2, use_integrated_positional_encoding=True), f64=False)
E("impl.NeRFormer", lambda h, cam, gcode: implicit_fn(h, NERF[1], "src", gcode, cam, h.own("rb", ibundle(h)), n_hidden_neurons_xyz=16, n_hidden_neurons_dir=8, n_layers_xyz=2, append_xyz=(1,), n_harmonic_functions_xyz=2, n_harmonic_functions_dir=2, xyz_ray_dir_in_camera_coords=cam),
  dict(cam=[False, True], gcode=[False, True]), f64=False, changes=["c."])
E("impl.SRN", lambda h, cam, gcode, view: implicit_fn(h, "scene_representation_networks:SRNImplicitFunction", view, gcode, cam, h.own("rb", ibundle(h)), raymarch_function_args=h.D(n_hidden_units=h.c(16), out_features=h.c(8), n_harmonic_functions=h.c(2), xyz_in_camera_coords=h.c(cam))),
  dict(cam=[False, True], gcode=[False, True], view=[None, "one"]), f64=False, changes=["c."])


def srn_pix(h, cls, cam):
    kw = {"pixel_generator_args": h.D(n_hidden_units=h.c(16), n_hidden_units_color=h.c(8), in_features=h.c(8), n_harmonic_functions=h.c(2), ray_dir_in_camera_coords=h.c(cam))}
    m = conf(h, IF + "scene_representation_networks:" + cls, **kw)
    k = dict(ray_bundle=h.own("rb", ibundle(h)), raymarch_features=h.T("feat", "N", "R", "P", 8))
    if cam:
        k["camera"] = h.own("c", cameras(h, "fovp"))
    return lambda: h.it.call(m, [], k)


E("impl.SRN.pixels", lambda h, cls, cam: srn_pix(h, cls, cam), dict(cls=["SRNImplicitFunction", "SRNHyperNetImplicitFunction"], cam=[False, True]), f64=False, changes=["c."])


def srn_hyper(h, cam, second):
    m = conf(h, IF + "scene_representation_networks:SRNHyperNetImplicitFunction", latent_dim_hypernet=6, hypernet_args=h.D(n_hidden_units=h.c(16), n_hidden_units_hypernet=h.c(8), out_features=h.c(16), n_harmonic_functions=h.c(2), xyz_in_camera_coords=h.c(cam)))
    k = dict(ray_bundle=h.own("rb", ibundle(h)), global_code=h.T("code", "N", 6))
    if cam:
        k["camera"] = h.own("c", cameras(h, "fovp"))
    if second:
        h.it.call(m, [], {**k, "global_code": h.T("old", "N", 6)})
        h.m(m, "on_bind_args")
    return lambda: h.it.call(m, [], k)


E("impl.SRNHyperNet", lambda h, cam, second: srn_hyper(h, cam, second), dict(cam=[False, True], second=[False, True]), f64=False, changes=["c."], fresh=["old"])
E("impl.IDRFeatureField", lambda h, harm, skip, wn, view, gcode: (lambda m=conf(h, IF + "idr_feature_field:IdrFeatureField", dims=(16, 16, 16), n_harmonic_functions_xyz=harm, skip_in=(1,) if skip else (), weight_norm=wn, pooled_feature_dim=4 if view else 0, encoding_dim=6 if gcode else 0),
                                                           k=dict(rays_points_world=h.T("pts", "M", 3), **({"fun_viewpool": h.mod("verif_stubs:PoolPts", h.c(4))} if view else {}), **({"global_code": h.T("code", 1, 6)} if gcode else {})): h.it.call(m, [], k)),
  dict(harm=[0, 2], skip=[False, True], wn=[True, False], view=[False], gcode=[False, True]), f64=False)
E("impl.IDRFeatureField.bundle", lambda h: (lambda m=conf(h, IF + "idr_feature_field:IdrFeatureField", dims=(16, 16), n_harmonic_functions_xyz=2), b=h.own("rb", ibundle(h)): h.it.call(m, [], dict(ray_bundle=b))), f64=False)

# decoding functions
DA = "pytorch3d.implicitron.models.implicit_function.decoding_functions:DecoderActivation."
ACTS = ["RELU", "SOFTPLUS", "SIGMOID", "IDENTITY"]
E("impl.ElementwiseDecoder", lambda h, act: (lambda m=conf(h, IF + "decoding_functions:ElementwiseDecoder", scale=2.0, shift=0.5, operation=h.ref(DA + act)), x=h.T("x", "N", "R", "C"): h.it.call(m, [x], {})), dict(act=ACTS), f64=True)
E("impl.MLPWithInputSkips", lambda h, act, z, affine, xav: (lambda m=conf(h, IF + "decoding_functions:MLPWithInputSkips", n_layers=4, input_dim=6, output_dim=5, skip_dim=7 if z else 6, hidden_dim=8, input_skips=(1, 3), skip_affine_trans=affine, last_activation=h.ref(DA + act), use_xavier_init=xav),
                                                     a=[h.T("x", "N", "R", 6)] + ([h.T("z", "N", "R", 7)] if z else []): h.it.call(m, a, {})), dict(act=ACTS, z=[False, True], affine=[False, True], xav=[True, False]), f64=False)
E("impl.MLPDecoder", lambda h: (lambda m=conf(h, IF + "decoding_functions:MLPDecoder", input_dim=6, network_args=h.D(n_layers=h.c(2), hidden_dim=h.c(8), output_dim=h.c(5), input_skips=h.tup(h.c(1)), skip_dim=h.c(6))), x=h.T("x", "N", "R", 6): h.it.call(m, [x], {})), f64=False)
E("impl.TransformerWithInputSkips", lambda h, z: (lambda m=h.mod(IT + IF + "decoding_functions:TransformerWithInputSkips", h.c(2), h.c(6), h.c(5), h.c(6), h.c(8), h.tup(h.c(1)), h.c(2.0)), a=[h.T("x", "N", "S", "R", "P", 6)] + ([h.T("z", "N", "S", "R", "P", 6)] if z else []): h.it.call(m, a, {})), dict(z=[False, True]), f64=False)

# utils
U = IT + IF + "utils:"
E("impl.broadcast_global_code", lambda h: (U + "broadcast_global_code", [h.T("emb", "N", "S", "R", "P", "C"), h.T("code", "N", "D")]))
E("impl.interpolate", lambda h, fn: (U + "interpolate_" + fn, [h.T("pts", "N", "P", dict(line=1, plane=2, volume=3)[fn]), h.T("src", "N", "C", *dict(line=("W",), plane=("W", "H"), volume=("W", "H", "Dd"))[fn])], dict(align_corners=h.c(True), padding_mode=h.c("zeros"), mode=h.c("bilinear"))),
  dict(fn=["line", "plane", "volume"]))
E("impl.get_rays_points_world", lambda h, kind: (U + "get_rays_points_world", [], dict(ray_bundle=ibundle(h)) if kind == "bundle" else dict(rays_points_world=h.T("pts", "M", 3))), dict(kind=["bundle", "points"]), f64=False, alias=True)

# ---- voxel grids ---------------------------------------------------------------------------------------
VG = "models.implicit_function.voxel_grid:"
GRIDS = ["FullResolutionVoxelGrid", "CPFactorizedVoxelGrid", "VMFactorizedVoxelGrid"]


def gvals(h, cls, basis=True, n=4, f=3):
    """grid values given by the caller"""
    W, Hh, Dd = h.d("gW"), h.d("gH"), h.d("gD")
    C = IT + VG + cls + "Values"
    if cls.startswith("Full"):
        return h.call(C, voxel_grid=h.T("g.voxels", 1, f, W, Hh, Dd))
    kw = dict(vector_components_x=h.T("g.x", 1, n, W), vector_components_y=h.T("g.y", 1, n, Hh), vector_components_z=h.T("g.z", 1, n, Dd))
    if cls.startswith("VM"):
        kw.update(matrix_components_xy=h.T("g.xy", 1, n, W, Hh), matrix_components_yz=h.T("g.yz", 1, n, Hh, Dd), matrix_components_xz=h.T("g.xz", 1, n, W, Dd))
    if basis:
        kw["basis_matrix"] = h.T("g.basis", 1, n * (3 if cls.startswith("VM") else 1), f)
    return h.call(C, **kw)


def grid(h, cls, basis=True, align=True, padding="zeros", f=3):
    kw = dict(n_features=f if basis or cls.startswith("Full") else 1, align_corners=align, padding=padding)
    if cls.startswith("CP"):
        kw.update(n_components=4, basis_matrix=basis)
    elif cls.startswith("VM"):
        kw.update(n_components=12, basis_matrix=basis)
    return conf(h, VG + cls, **kw)


def loc(h, dev=True):
    return h.call("pytorch3d.structures.volumes:VolumeLocator", batch_size=h.c(1), grid_sizes=h.tup(h.size("gD"), h.size("gH"), h.size("gW")), voxel_size=h.T("vs", 1, 3), volume_translation=h.T("vt", 1, 3), device=h.dev())


E("impl.VoxelGrid.evaluate_local", lambda h, cls, basis, align: (lambda m=grid(h, cls, basis, align), g=h.own("g", gvals(h, cls, basis)), p=h.T("pts", 1, "R", "P", 3): h.it.call_method(m, "evaluate_local", [p, g], {})), dict(cls=GRIDS, basis=[True, False], align=[True, False]), f64=False)
E("impl.VoxelGrid.evaluate_world", lambda h, cls: (lambda m=grid(h, cls), g=h.own("g", gvals(h, cls)), p=h.T("pts", 1, "R", "P", 3), l=h.own("loc", loc(h)): h.it.call_method(m, "evaluate_world", [p, g, l], {})), dict(cls=GRIDS), f64=False)
E("impl.VoxelGrid.crop_local", lambda h, cls, basis, align: (lambda m=grid(h, cls, basis, align), g=h.own("g", gvals(h, cls, basis)), a=h.T("lo", 3, grad=False), b=h.T("hi", 3, grad=False): h.it.call_method(m, "crop_local", [a, b, g], {})), dict(cls=GRIDS, basis=[True, False], align=[True, False]), f64=False)
E("impl.VoxelGrid.crop_world", lambda h, cls: (lambda m=grid(h, cls), g=h.own("g", gvals(h, cls)), a=h.T("lo", 3, grad=False), b=h.T("hi", 3, grad=False), l=h.own("loc", loc(h)): h.it.call_method(m, "crop_world", [a, b, g, l], {})), dict(cls=GRIDS), f64=False)
E("impl.VoxelGrid.change_resolution", lambda h, cls, mode, how: (lambda m=conf(h, VG + cls, n_features=3, resolution_changes=h.dct({0: h.L(h.c(4), h.c(5), h.c(6)), 10: h.L(h.c(8), h.c(10), h.c(12))}), **({} if cls.startswith("Full") else dict(n_components=12 if cls.startswith("VM") else 4))), g=h.own("g", gvals(h, cls)):
                                                       h.it.call_method(m, "change_resolution", [g], dict(epoch=h.c(10 if how == "change" else 3), mode=h.c(mode), **({"align_corners": NONE} if mode in ("nearest", "area") else {})))),
  dict(cls=["FullResolutionVoxelGrid"], mode=["linear", "nearest", "area"], how=["change", "keep"]), f64=False)
E("impl.VoxelGrid.get_shapes", lambda h, cls: (lambda m=grid(h, cls): h.it.call_method(m, "get_shapes", [h.c(0)], {})), dict(cls=GRIDS), f64=False)


def vgm(h, cls="FullResolutionVoxelGrid", params=True, **kw):
    a = dict(voxel_grid_class_type=cls, extents=(2.0, 3.0, 4.0), translation=(0.1, 0.2, 0.3), hold_voxel_grid_as_parameters=params)
    a["voxel_grid_" + cls + "_args"] = h.D(n_features=h.c(3), resolution_changes=h.dct({0: h.L(h.c(4), h.c(5), h.c(6)), 10: h.L(h.c(8), h.c(10), h.c(12))}), **({} if cls.startswith("Full") else dict(n_components=h.c(12 if cls.startswith("VM") else 4))))
    a.update(kw)
    return conf(h, VG + "VoxelGridModule", **a)


def params_of(h, m):
    return h.it.call_method(h.attr(m, "params"), "values", [], {}) if False else h.attr(m, "params")


E("impl.VoxelGridModule", lambda h, cls, params, ep: (lambda m=vgm(h, cls, params), p=h.T("pts", "M", 3): (h.it.call_method(m, "_apply_epochs", [h.c(10)], {}) if ep else None, h.it.call(m, [p], {}))[1]), dict(cls=GRIDS, params=[True, False], ep=[False, True]), f64=False)
E("impl.VoxelGridModule.crop_self", lambda h, cls, params: (lambda m=vgm(h, cls, params), a=h.T("lo", 3, grad=False), b=h.T("hi", 3, grad=False), p=h.T("pts", "M", 3): (h.it.call_method(m, "crop_self", [a, b], {}), h.it.call(m, [p], {}))[1]), dict(cls=GRIDS, params=[True, False]), f64=False)
E("impl.VoxelGridModule.get_grid_points", lambda h, align: (lambda m=vgm(h, "FullResolutionVoxelGrid", voxel_grid_FullResolutionVoxelGrid_args=h.D(align_corners=h.c(align), resolution_changes=h.dct({0: h.L(h.c(4), h.c(5), h.c(6))}))): h.it.call_method(m, "get_grid_points", [], dict(epoch=h.c(0)))), dict(align=[True, False]), f64=False)


def vgif(h, cam=False, filt=True, chunk=-1, **kw):
    small = lambda: h.D(n_harmonic_functions=h.c(2), append_input=h.c(True))
    net = lambda out: h.D(network_args=h.D(n_layers=h.c(2), hidden_dim=h.c(8), output_dim=h.c(out), input_skips=h.tup()))
    g = lambda: h.D(extents=h.tup(h.c(2.0), h.c(2.0), h.c(2.0)), translation=h.tup(h.c(0.0), h.c(0.0), h.c(0.0)), voxel_grid_class_type=h.c("FullResolutionVoxelGrid"), voxel_grid_FullResolutionVoxelGrid_args=h.D(n_features=h.c(3), resolution_changes=h.dct({0: h.L(h.c(4), h.c(5), h.c(6))})))
    return conf(h, IF + "voxel_grid_implicit_function:VoxelGridImplicitFunction", voxel_grid_density_args=g(), voxel_grid_color_args=g(), harmonic_embedder_xyz_density_args=small(), harmonic_embedder_xyz_color_args=small(), harmonic_embedder_dir_color_args=small(),
                decoder_density_MLPDecoder_args=net(1), decoder_color_MLPDecoder_args=net(3), xyz_ray_dir_in_camera_coords=cam, scaffold_calculating_epochs=(2,), volume_cropping_epochs=(3,), scaffold_resolution=(4, 5, 6), scaffold_filter_points=filt, scaffold_occupancy_chunk_size=chunk, **kw)


def vgif_run(h, cam, filt, chunk, epochs, sp):
    m = vgif(h, cam, filt, chunk)
    k = dict(ray_bundle=h.own("rb", ibundle(h, sp=("H", "W") if sp == 2 else ("R",))))
    if cam:
        k["camera"] = h.own("c", cameras(h, "fovp", n=1))

    def run():
        if epochs:
            cb = h.it.P.getitem(h.it.call_method(m, "subscribe_to_epochs", [], {}), h.c(1))
            for e in epochs:
                h.it.call(cb, [h.c(e)], {})
        return h.it.call(m, [], k)
    return run


E("impl.VoxelGridImplicitFunction", lambda h, cam, sp, ep: vgif_run(h, cam, True, -1, {0: (), 1: (2,), 2: (2, 3)}[ep], sp), dict(cam=[False, True], sp=[1, 2], ep=[0, 1, 2]), f64=False, changes=["c."])
E("impl.VoxelGridImplicitFunction.chunks", lambda h, chunk, filt: vgif_run(h, False, filt, chunk, (2,), 1), dict(chunk=[1, 2, 8], filt=[True, False]), f64=False)

# ---- view pooling --------------------------------------------------------------------------------------
VP = "models.view_pooler."
AGG = ["IdentityFeatureAggregator", "ReductionFeatureAggregator", "AngleWeightedReductionFeatureAggregator", "AngleWeightedIdentityFeatureAggregator"]
RF = IT + VP + "feature_aggregator:ReductionFunction."


def seqid(h, kind, lab, n):
    return h.I(lab, n) if kind == "tensor" else h.LN(h.int(lab) if kind == "ints" else h.str(lab), n)


def pool_feats(h):
    return h.D(a=h.T("f.a", "Nc", "Ca", "Hf", "Wf"), b=h.T("f.b", "Nc", "Cb", "Hg", "Wg"))


E("impl.ViewSampler", lambda h, ids, masked, mode, cams: (lambda m=conf(h, VP + "view_sampler:ViewSampler", masked_sampling=masked, sampling_mode=mode), k=dict(pts=h.T("pts", "B", "P", 3), seq_id_pts=seqid(h, ids, "idp", "B"), camera=h.own("c", cameras(h, cams, n="Nc")), seq_id_camera=seqid(h, ids, "idc", "Nc"),
                                                                                                                     feats=h.own("f", pool_feats(h)), masks=h.T("mask", "Nc", 1, "Hm", "Wm")): h.it.call(m, [], k)),
  dict(ids=["tensor", "ints", "strs"], masked=[False, True], mode=["bilinear", "nearest"], cams=["fovp", "persp"]), f64=False, changes=["c."])
E("impl.cameras_points_cartesian_product", lambda h: (lambda c=h.own("c", cameras(h, "fovp", n="Nc")), p=h.T("pts", "B", "P", 3): h.call(IT + VP + "view_sampler:cameras_points_cartesian_product", c, p)), f64=False, changes=["c."])


def agg(h, cls, cat, excl, red):
    kw = dict(concatenate_output=cat, exclude_target_view=excl, exclude_target_view_mask_features=excl)
    if "Reduction" in cls and red:
        kw["reduction_functions"] = h.tup(*[h.ref(RF + r) for r in red.split("+")])
    m = conf(h, VP + "feature_aggregator:" + cls, **kw)
    f = h.own("f", h.D(a=h.T("f.a", "B", "Nc", "P", "Ca"), b=h.T("f.b", "B", "Nc", "P", "Cb")))
    k = dict(camera=h.own("c", cameras(h, "fovp", n="Nc")), pts=h.T("pts", "B", "P", 3))
    mk = h.T("mask", "B", "Nc", "P", 1)
    return lambda: h.it.call(m, [f, mk], k)


E("impl.FeatureAggregator", lambda h, cls, cat, excl: agg(h, cls, cat, excl, None), dict(cls=AGG, cat=[True, False], excl=[True, False]), f64=False, changes=["c."])
E("impl.FeatureAggregator.reductions", lambda h, cls, red: agg(h, cls, True, True, red), dict(cls=AGG[1:3], red=["AVG", "MAX", "STD", "STD_AVG", "AVG+MAX+STD+STD_AVG", "MAX+STD_AVG"]), f64=False, changes=["c."])
E("impl.ViewPooler", lambda h, cls: (lambda m=conf(h, VP + "view_pooler:ViewPooler", feature_aggregator_class_type=cls), k=dict(pts=h.T("pts", "B", "P", 3), seq_id_pts=h.I("idp", "B"), camera=h.own("c", cameras(h, "fovp", n="Nc")), seq_id_camera=h.I("idc", "Nc"), feats=h.own("f", pool_feats(h)), masks=h.T("mask", "Nc", 1, "Hm", "Wm")):
                              h.it.call(m, [], k)), dict(cls=AGG), f64=False, changes=["c."])

# ---- global encoders -----------------------------------------------------------------------------------
GE = "models.global_encoder."
E("impl.Autodecoder", lambda h, kind, ign: (lambda m=conf(h, GE + "autodecoder:Autodecoder", encoding_dim=6, n_instances=4, ignore_input=ign), x=h.I("ids", "N") if kind == "tensor" else h.L(h.c("a"), h.c("b"), h.c("a")): h.it.call(m, [x], {})), dict(kind=["tensor", "strs"], ign=[False, True]), f64=False)
E("impl.Autodecoder.norm", lambda h: (lambda m=conf(h, GE + "autodecoder:Autodecoder", encoding_dim=6, n_instances=4): h.it.call_method(m, "calculate_squared_encoding_norm", [], {})), f64=False)
E("impl.SequenceAutodecoder", lambda h: (lambda m=conf(h, GE + "global_encoder:SequenceAutodecoder", autodecoder_args=h.D(encoding_dim=h.c(6), n_instances=h.c(4))), x=h.I("ids", "N"): h.it.call(m, [], dict(sequence_name=x))), f64=False)
E("impl.HarmonicTimeEncoder", lambda h: (lambda m=conf(h, GE + "global_encoder:HarmonicTimeEncoder", time_divisor=10.0), x=h.T("t", "N", 1): h.it.call(m, [], dict(frame_timestamp=x))), f64=True)

# ---- ambient state -------------------------------------------------------------------------------------
E("impl.evaluating", lambda h: (lambda m=h.own("net", h.mod("verif_stubs:Net")), x=h.T("x", "N", 3): h.call("verif_stubs:run_evaluating", m, x)), f64=False, only=("C16",))
E("impl.render_flyaround", lambda h, seed, viz: (lambda m=h.own("net", h.mod("verif_stubs:Net")), d=h.call("verif_stubs:Data"): h.call(IT + "models.visualization.render_flyaround:render_flyaround", d, h.str("seq"), m, h.str("out"), n_flyaround_poses=h.c(2), seed=h.int("seed") if seed else NONE)),
  dict(seed=[False, True], viz=[False]), f64=False, only=("C16",))
