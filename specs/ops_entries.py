from _common import *

O = "pytorch3d.ops."


def flags(h, **kw):
    return {k: h.c(v) for k, v in kw.items()}


# ---- nearest neighbours -----------------------------------------------------------
def knn(h, norm, return_nn, lengths, return_sorted):
    kw = dict(norm=h.c(norm), K=h.size("K"), return_nn=h.c(return_nn), return_sorted=h.c(return_sorted))
    if lengths:
        kw.update(lengths1=h.I("l1", "N"), lengths2=h.I("l2", "N"))
    return O + "knn:knn_points", [h.T("p1", "N", "P", "D"), h.T("p2", "N", "Q", "D")], kw


E("ops.knn_points", knn, dict(norm=[1, 2], return_nn=[False, True], lengths=[False, True], return_sorted=[True, False]), f64=False)
E("ops.knn_gather", lambda h, lengths: (O + "knn:knn_gather", [h.T("x", "N", "M", "U"), h.I("idx", "N", "L", "K")] + ([h.I("lengths", "N")] if lengths else []), {}),
  dict(lengths=[False, True]))


def ball(h, return_nn, lengths):
    kw = dict(K=h.size("K"), radius=h.float("radius"), return_nn=h.c(return_nn), skip_points_outside_cube=h.bool("skip"))
    if lengths:
        kw.update(lengths1=h.I("l1", "N"), lengths2=h.I("l2", "N"))
    return O + "ball_query:ball_query", [h.T("p1", "N", "P", "D"), h.T("p2", "N", "Q", "D")], kw


E("ops.ball_query", ball, dict(return_nn=[False, True], lengths=[False, True]), f64=False)
E("ops.masked_gather", lambda h, nd: (O + "utils:masked_gather", [h.T("points", "N", "P", "D"), h.I("idx", "N", "K") if nd == 2 else h.I("idx", "N", "M", "K")]), dict(nd=[2, 3]))


def fps(h, fn, K, lengths, rnd):
    k = h.size("K") if K == "int" else (h.I("K", "N") if K == "tensor" else h.L(h.int("K"), h.int("K")))
    n = 2 if K == "list" else "N"
    kw = dict(K=k, random_start_point=h.c(rnd))
    if lengths:
        kw["lengths"] = h.I("lengths", n)
    return O + "sample_farthest_points:" + fn, [h.T("points", n, "P", "D")], kw


E("ops.sample_farthest_points", lambda h, **s: fps(h, "sample_farthest_points", **s), dict(K=["int", "tensor", "list"], lengths=[False, True], rnd=[False, True]), f64=False)
E("ops.sample_farthest_points_naive", lambda h, **s: fps(h, "sample_farthest_points_naive", **s), dict(K=["int", "tensor", "list"], lengths=[False, True], rnd=[False, True]))

# ---- small utilities ---------------------------------------------------------------
E("ops.wmean", lambda h, weight, keepdim, dim: (O + "utils:wmean", [h.T("x", "N", "P", "D")], dict(
    **({"weight": h.T("weight", "N", "P")} if weight else {}), keepdim=h.c(keepdim), eps=h.float("eps"), dim=h.c(dim))),
  dict(weight=[False, True], keepdim=[True, False], dim=[-2, (-2, -3)]))
E("ops.eyes", lambda h: (O + "utils:eyes", [h.size("dim"), h.size("N")], dict(device=h.dev(), dtype=Sc("dtype", h.f))))
E("ops.convert_pointclouds_to_tensor", lambda h, kind: (O + "utils:convert_pointclouds_to_tensor", [h.T("pcl", "N", "P", 3) if kind == "tensor" else clouds(h, kind=kind)]),
  dict(kind=["tensor", "list", "padded"]))
E("ops.get_point_covariances", lambda h: (O + "utils:get_point_covariances", [h.T("pts", "N", "P", 3), h.I("num", "N"), h.size("K")]), f64=False)
E("ops.packed_to_padded", lambda h, nd: (O + "packed_to_padded:packed_to_padded", [h.T("x", *(["F", "D", "A"][:nd])), h.I("first", "N"), h.size("max_size")]), dict(nd=[1, 2, 3]), f64=False)
E("ops.padded_to_packed", lambda h, nd: (O + "packed_to_padded:padded_to_packed", [h.T("x", *(["N", "M", "D", "A"][:nd])), h.I("first", "N"), h.size("num")]), dict(nd=[2, 3, 4]), f64=False)
E("ops.padded_to_packed.dim2", lambda h: (O + "packed_to_padded:padded_to_packed", [h.T("x", "N", "D", "M"), h.I("first", "N"), h.size("num")], dict(max_size_dim=h.c(2))), f64=False)
E("ops.interpolate_face_attributes", lambda h, fn: (O + "interp_face_attrs:" + fn, [h.I("p2f", "N", "H", "W", "K"), h.T("bary", "N", "H", "W", "K", 3), h.T("attrs", "F", 3, "D")]),
  dict(fn=["interpolate_face_attributes"]), f64=False)
E("ops.interpolate_face_attributes_python", lambda h: (O + "interp_face_attrs:interpolate_face_attributes_python",
  [h.I("p2f", "N", "H", "W", "K"), h.T("bary", "N", "H", "W", "K", 3), h.T("attrs", "F", 3, "D")]))
E("ops.mesh_face_areas_normals", lambda h: (O + "mesh_face_areas_normals:mesh_face_areas_normals", [h.T("verts", "V", 3), h.I("faces", "F", 3)]), f64=False)
E("ops.gather_scatter_python", lambda h: (O + "graph_conv:gather_scatter_python", [h.T("x", "V", "D"), h.I("edges", "E", 2)], dict(directed=h.bool("directed"))), f64=False)
E("ops.gather_scatter", lambda h: (O + "graph_conv:gather_scatter", [h.T("x", "V", "D"), h.I("edges", "E", 2), h.bool("directed")]), f64=False)


def graphconv(h, directed, dev):
    g = h.mod(O + "graph_conv:GraphConv", h.size("Din"), h.size("Dout"), directed=h.c(directed))
    h.own("self", g)
    return lambda: h.it.call(g, [h.T("verts", "V", "Din", dev=dev), h.I("edges", "E", 2, dev=dev)], {})


E("ops.GraphConv", graphconv, dict(directed=[False, True], dev=["D"]), f64=False)
E("ops.laplacian", lambda h: (O + "laplacian_matrices:laplacian", [h.T("verts", "V", 3), h.I("edges", "E", 2)]))
E("ops.cot_laplacian", lambda h: (O + "laplacian_matrices:cot_laplacian", [h.T("verts", "V", 3), h.I("faces", "F", 3)], dict(eps=h.float("eps"))))
E("ops.norm_laplacian", lambda h: (O + "laplacian_matrices:norm_laplacian", [h.T("verts", "V", 3), h.I("edges", "E", 2)], dict(eps=h.float("eps"))))
E("ops.vert_align", lambda h, verts, packed, nf: (O + "vert_align:vert_align",
  [h.T("f0", "N" if verts != "list" else 2, "C", "H", "W") if nf == 1 else h.L(h.T("f0", "N" if verts != "list" else 2, "C", "H", "W"), h.T("f1", "N" if verts != "list" else 2, "C2", "H2", "W2")),
   h.T("verts", "N", "V", 3) if verts == "tensor" else (meshes(h, kind=verts) if verts != "clouds" else clouds(h, kind="padded"))], dict(return_packed=h.c(packed))),
  dict(verts=["tensor", "list", "padded", "clouds"], packed=[False, True], nf=[1, 2]))
E("ops.vert_align.opts", lambda h: (O + "vert_align:vert_align", [h.T("f0", "N", "C", "H", "W"), h.T("verts", "N", "V", 3)],
                                    dict(interp_mode=h.str("interp_mode"), padding_mode=h.str("padding_mode"), align_corners=h.bool("align_corners"))))

# ---- alignment ------------------------------------------------------------------------
E("ops.corresponding_points_alignment", lambda h, kind, weights, scale: (O + "points_alignment:corresponding_points_alignment",
  [h.T("X", "N", "P", "D"), h.T("Y", "N", "P", "D")] if kind == "tensor" else [clouds(h, "X", kind, normals=False, features=False), clouds(h, "Y", kind, normals=False, features=False)],
  dict(estimate_scale=h.c(scale), allow_reflection=h.bool("allow_reflection"), eps=h.float("eps"),
       **({"weights": h.T("weights", "N", "P")} if weights else {}))),
  dict(kind=["tensor"], weights=[False, True], scale=[False, True]))
E("ops.corresponding_points_alignment.clouds", lambda h, scale: (O + "points_alignment:corresponding_points_alignment",
  [clouds(h, "X", "padded", normals=False, features=False, P="P"), clouds(h, "Y", "padded", normals=False, features=False, P="P")], dict(estimate_scale=h.c(scale))), dict(scale=[False, True]))


def icp(h, kind, scale, init):
    X, Y = (h.T("X", "N", "P", 3), h.T("Y", "N", "Q", 3)) if kind == "tensor" else (clouds(h, "X", kind, normals=False, features=False), clouds(h, "Y", kind, normals=False, features=False))
    n = 2 if kind == "list" else "N"
    kw = dict(estimate_scale=h.c(scale), allow_reflection=h.bool("allow_reflection"), max_iterations=h.int("max_iterations"), relative_rmse_thr=h.float("thr"))
    if init:
        kw["init_transform"] = h.call(O + "points_alignment:SimilarityTransform", h.T("R0", n, 3, 3), h.T("T0", n, 3), h.T("s0", n))
    return O + "points_alignment:iterative_closest_point", [X, Y], kw


E("ops.iterative_closest_point", icp, dict(kind=["tensor", "list"], scale=[False, True], init=[False, True]), f64=False)
E("ops.efficient_pnp", lambda h, weights, skip: (O + "perspective_n_points:efficient_pnp", [h.T("x", "N", "P", 3), h.T("y", "N", "P", 2)],
                                                dict(skip_quadratic_eq=h.c(skip), **({"weights": h.T("weights", "N", "P")} if weights else {}))),
  dict(weights=[False, True], skip=[False, True]))
E("ops.estimate_pointcloud_normals", lambda h, kind, dis, sym: (O + "points_normals:estimate_pointcloud_normals",
  [h.T("pcl", "N", "P", 3) if kind == "tensor" else clouds(h, kind=kind, normals=False, features=False)],
  dict(neighborhood_size=h.int("ns"), disambiguate_directions=h.c(dis), use_symeig_workaround=h.c(sym))),
  dict(kind=["tensor", "padded"], dis=[True, False], sym=[True, False]), f64=False)
E("ops.estimate_pointcloud_local_coord_frames", lambda h, kind, dis: (O + "points_normals:estimate_pointcloud_local_coord_frames",
  [h.T("pcl", "N", "P", 3) if kind == "tensor" else clouds(h, kind=kind, normals=False, features=False)],
  dict(neighborhood_size=h.int("ns"), disambiguate_directions=h.c(dis))), dict(kind=["tensor", "padded"], dis=[True, False]), f64=False)

# ---- boxes, voxels, volumes ---------------------------------------------------------------
E("ops.box3d_overlap", lambda h: (O + "iou_box3d:box3d_overlap", [h.T("b1", "N", 8, 3), h.T("b2", "M", 8, 3)], dict(eps=h.float("eps"))), f64=False, nobackward=True)
E("ops.cubify", lambda h, align, feats: (O + "cubify:cubify", [h.T("voxels", "N", "D", "H", "W"), h.float("thresh")],
                                        dict(align=h.c(align), **({"feats": h.T("feats", "N", "K", "D", "H", "W")} if feats else {}))),
  dict(align=["topleft", "corner", "center"], feats=[False, True]), f64=False)
E("ops.marching_cubes", lambda h, local, iso: (O + "marching_cubes:marching_cubes", [h.T("vol", 2, "D", "H", "W"), h.float("isolevel") if iso else NONE, h.c(local)]),
  dict(local=[False, True], iso=[False, True]), f64=False, nobackward=True)
E("ops.add_points_features_to_volume_densities_features", lambda h, mode, feats, mask, gs: (
    O + "points_to_volumes:add_points_features_to_volume_densities_features",
    [h.T("pts", "N", "P", 3), h.T("feat", "N", "P", "C"), h.T("dens", "N", 1, "D", "H", "W"), h.T("vol", "N", "C", "D", "H", "W") if feats else NONE],
    dict(mode=h.c(mode), min_weight=h.float("min_weight"), rescale_features=h.bool("rescale"), align_corners=h.bool("align_corners"),
         **({"mask": h.T("mask", "N", "P")} if mask else {}), **({"grid_sizes": h.I("gs", "N", 3)} if gs else {}))),
  dict(mode=["trilinear", "nearest"], feats=[True, False], mask=[False, True], gs=[False, True]), f64=False)
E("ops.add_points_features_to_volume_densities_features.python", lambda h, mode, mask: (
    O + "points_to_volumes:add_points_features_to_volume_densities_features",
    [h.T("pts", "N", "P", 3), h.T("feat", "N", "P", "C"), h.T("dens", "N", 1, "D", "H", "W"), h.T("vol", "N", "C", "D", "H", "W")],
    dict(mode=h.c(mode), min_weight=h.float("min_weight"), _python=h.c(True), **({"mask": h.T("mask", "N", "P")} if mask else {}))),
  dict(mode=["trilinear", "nearest"], mask=[False, True]), f64=False)


def add_clouds(h, mode, _python):
    vol = h.call("pytorch3d.structures.volumes:Volumes", h.T("dens", 2, 1, "D", "H", "W"), features=h.T("vf", 2, "C", "D", "H", "W"))
    return O + "points_to_volumes:add_pointclouds_to_volumes", [clouds(h), vol], dict(mode=h.c(mode), min_weight=h.float("min_weight"), rescale_features=h.bool("rescale"), _python=h.c(_python))


E("ops.add_pointclouds_to_volumes", add_clouds, dict(mode=["trilinear", "nearest"], _python=[False, True]), f64=False)

# ---- meshes ------------------------------------------------------------------------------
E("ops.sample_points_from_meshes", lambda h, kind, normals, tex: (O + "sample_points_from_meshes:sample_points_from_meshes",
  [meshes(h, kind=kind, tex=tex), h.size("S")], dict(return_normals=h.c(normals), return_textures=h.c(tex is not None))),
  dict(kind=["list", "padded"], normals=[False, True], tex=[None, "vertex", "uv", "atlas"]), f64=False)


def subdivide(h, kind, feats, pre):
    m = meshes(h, kind=kind)
    s = h.call(O + "subdivide_meshes:SubdivideMeshes", *([m] if pre else []))
    h.own("meshes", m)
    args = [m]
    if feats:
        args.append(h.T("feats", "N", "mV", "C") if pre else h.T("feats", dims.add(sym("mV0"), sym("mV1")), "C"))
    return lambda: h.it.call(s, args, {})


E("ops.SubdivideMeshes", lambda h, feats: subdivide(h, "list", feats, False), dict(feats=[False, True]), f64=False)
E("ops.SubdivideMeshes.homogeneous", lambda h, feats: subdivide(h, "padded", feats, True), dict(feats=[False, True]), f64=False)
E("ops.taubin_smoothing", lambda h, kind: (O + "mesh_filtering:taubin_smoothing", [meshes(h, kind=kind)], dict(lambd=h.float("lambd"), mu=h.float("mu"), num_iter=h.c(2))), dict(kind=["list", "padded"]), f64=False)

# ---- losses ------------------------------------------------------------------------------
L_ = "pytorch3d.loss."


def chamfer(h, kind, lengths, normals, weights, br, pr, norm, single):
    if kind == "tensor":
        a = [h.T("x", "N", "P", 3), h.T("y", "N", "Q", 3)]
    else:
        a = [clouds(h, "x", kind, normals=normals, features=False), clouds(h, "y", kind, normals=normals, features=False)]
    kw = dict(batch_reduction=h.c(br), point_reduction=h.c(pr), norm=h.c(norm), single_directional=h.c(single), abs_cosine=h.bool("abs_cosine"))
    if kind == "tensor" and lengths:
        kw.update(x_lengths=h.I("xl", "N"), y_lengths=h.I("yl", "N"))
    if kind == "tensor" and normals:
        kw.update(x_normals=h.T("xn", "N", "P", 3), y_normals=h.T("yn", "N", "Q", 3))
    if weights:
        kw["weights"] = h.T("weights", "N" if kind != "list" else 2, grad=False)
    return L_ + "chamfer:chamfer_distance", a, kw


for pr, br in (("mean", "mean"), ("sum", "sum"), ("mean", None), (None, None), ("sum", "mean")):
    E(f"loss.chamfer[{pr},{br}]", lambda h, pr=pr, br=br, **s: chamfer(h, br=br, pr=pr, **s),
      dict(kind=["tensor"], lengths=[False, True], normals=[False, True], weights=[False, True], norm=[2], single=[False, True]), f64=False)
E("loss.chamfer[max]", lambda h, **s: chamfer(h, br="mean", pr="max", normals=False, **s), dict(kind=["tensor"], lengths=[False, True], weights=[False, True], norm=[1, 2], single=[False, True]), f64=False)
E("loss.chamfer.clouds", lambda h, **s: chamfer(h, br="mean", pr="mean", lengths=False, norm=1, **s), dict(kind=["list", "padded"], normals=[False, True], weights=[False, True], single=[False, True]), f64=False)
E("loss.mesh_edge_loss", lambda h, kind: (L_ + "mesh_edge_loss:mesh_edge_loss", [meshes(h, kind=kind)], dict(target_length=h.float("target_length"))), dict(kind=["list", "padded"]), f64=False)
E("loss.mesh_laplacian_smoothing", lambda h, kind, method: (L_ + "mesh_laplacian_smoothing:mesh_laplacian_smoothing", [meshes(h, kind=kind)], dict(method=h.c(method))),
  dict(kind=["list", "padded"], method=["uniform", "cot", "cotcurv"]), f64=False)
E("loss.mesh_normal_consistency", lambda h, kind: (L_ + "mesh_normal_consistency:mesh_normal_consistency", [meshes(h, kind=kind)]), dict(kind=["list", "padded"]), f64=False)
E("loss.point_mesh_edge_distance", lambda h, kind: (L_ + "point_mesh_distance:point_mesh_edge_distance", [meshes(h, kind=kind), clouds(h, kind=kind)]), dict(kind=["list", "padded"]), f64=False)
E("loss.point_mesh_face_distance", lambda h, kind: (L_ + "point_mesh_distance:point_mesh_face_distance", [meshes(h, kind=kind), clouds(h, kind=kind)],
                                                   dict(min_triangle_area=h.float("min_area"))), dict(kind=["list", "padded"]), f64=False)
E("common.LinearWithRepeat", lambda h, bias: (lambda l: (lambda: h.it.call(l, [Tup([h.T("x0", "N", "R", "A"), h.T("x1", "N", "B")])], {})))(
    h.mod("pytorch3d.common.linear_with_repeat:LinearWithRepeat", Sc("int", dims.add(sym("A"), sym("B"))), h.size("O"), h.c(bias))), dict(bias=[True, False]), f64=False)
E("common.symeig3x3", lambda h, ev: ("pytorch3d.common.workaround:symeig3x3", [h.T("x", "N", "M", 3, 3)], dict(eigenvectors=h.c(ev))), dict(ev=[True, False]))
E("common.safe_det_3x3", lambda h: ("pytorch3d.common.workaround.utils:_safe_det_3x3", [h.T("t", "N", 3, 3)]))
E("common.get_device", lambda h, o: ("pytorch3d.common.datatypes:get_device", [h.T("x", "N")], {"device": h.dev("E")} if o else {}), dict(o=[False, True]))
