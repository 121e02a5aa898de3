"""Effects, shapes and dtypes of the functions bound from C++ (pytorch3d._C).

The parameter order and types of every bound function are read from the C++ headers of
the analysed tree (ext.cpp names the bound functions); this table only knows parameters
by name.  Entry:  name: (inputs, outputs, writes)
"""
import functools
import glob
import os
import re

from . import csrc, dims
from .values import *
from .values import _set

F, I = "f32", "int64"
TABLE = {
    "face_areas_normals_forward": ("verts f[V,3]; faces i[F,3]", "f@verts[F]; f@verts[F,3]"),
    "face_areas_normals_backward": ("grad_areas f[F]; grad_normals f[F,3]; verts f[V,3]; faces i[F,3]", "f@grad_areas[V,3]"),
    "packed_to_padded": ("inputs_packed f[P,D]; first_idxs i[N]; max_size n", "f@inputs_packed[N,$max_size,D]"),
    "padded_to_packed": ("inputs_padded f[N,M,D]; first_idxs i[N]; num_inputs n", "f@inputs_padded[$num_inputs,D]"),
    "interp_face_attrs_forward": ("pix_to_face i[P]; barycentric_coords f[P,3]; face_attrs f[F,3,D]", "f@face_attrs[P,D]"),
    "interp_face_attrs_backward": ("pix_to_face i[P]; barycentric_coords f[P,3]; face_attrs f[F,3,D]; grad_pix_attrs f[P,D]",
                                   "f@barycentric_coords[P,3]; f@face_attrs[F,3,D]"),
    "knn_points_idx": ("p1 f[N,P1,D]; p2 f[N,P2,D]; lengths1 i[N]; lengths2 i[N]; norm n; K n; version n",
                       "i@p1[N,P1,$K]; f@p1[N,P1,$K]"),
    "knn_points_backward": ("p1 f[N,P1,D]; p2 f[N,P2,D]; lengths1 i[N]; lengths2 i[N]; idxs i[N,P1,K]; norm n; grad_dists f[N,P1,K]",
                            "f@p1[N,P1,D]; f@p2[N,P2,D]"),
    "ball_query": ("p1 f[N,P1,D]; p2 f[N,P2,D]; lengths1 i[N]; lengths2 i[N]; K n; radius x; skip_points_outside_cube b",
                   "i@p1[N,P1,$K]; f@p1[N,P1,$K]"),
    "sample_farthest_points": ("points f[N,P,D]; lengths i[N]; K i[N]; start_idxs i[N]; max_K_known n", "i@points[N,$max_K_known]"),
    "mesh_normal_consistency_find_verts": ("edge_num i[E]", "i@edge_num[?,2]"),
    "gather_scatter": ("input f[V,D]; edges i[E,2]; directed b; backward b", "f@input[V,D]"),
    "points_to_volumes_forward": ("points_3d f[N,P,3]; points_features f[N,P,C]; volume_densities f[N,1,A,B,E]; "
                                  "volume_features f[N,C,A,B,E]; grid_sizes i[N,3]; mask f[N,P]; point_weight x; align_corners b; splat b", "",
                                  {"volume_densities": ("points_3d", "grid_sizes", "mask", "point_weight", "align_corners", "splat"),
                                   "volume_features": ("points_3d", "points_features", "grid_sizes", "mask", "point_weight", "align_corners", "splat")}),
    "points_to_volumes_backward": ("points_3d f[N,P,3]; points_features f[N,P,C]; grid_sizes i[N,3]; mask f[N,P]; point_weight x; "
                                   "align_corners b; splat b; grad_volume_densities f[N,1,A,B,E]; grad_volume_features f[N,C,A,B,E]; "
                                   "grad_points_3d f[N,P,3]; grad_points_features f[N,P,C]", "",
                                   {"grad_points_3d": ("points_3d", "points_features", "grid_sizes", "mask", "point_weight", "align_corners", "splat",
                                                       "grad_volume_densities", "grad_volume_features"),
                                    "grad_points_features": ("points_3d", "grid_sizes", "mask", "point_weight", "align_corners", "splat",
                                                             "grad_volume_features")}),
    "rasterize_points": ("points f[P,3]; cloud_to_packed_first_idx i[N]; num_points_per_cloud i[N]; image_size hw; radius f[P]; "
                         "points_per_pixel n; bin_size n; max_points_per_bin n",
                         "i32@points[N,$H,$W,$points_per_pixel]; f@points[N,$H,$W,$points_per_pixel]; f@points[N,$H,$W,$points_per_pixel]"),
    "rasterize_points_backward": ("points f[P,3]; idxs i32[N,H,W,K]; grad_zbuf f[N,H,W,K]; grad_dists f[N,H,W,K]", "f@points[P,3]"),
    "rasterize_meshes": ("face_verts f[F,3,3]; mesh_to_face_first_idx i[N]; num_faces_per_mesh i[N]; clipped_faces_neighbor_idx i[F]; "
                         "image_size hw; blur_radius x; faces_per_pixel n; bin_size n; max_faces_per_bin n; perspective_correct b; "
                         "clip_barycentric_coords b; cull_backfaces b",
                         "i@face_verts[N,$H,$W,$faces_per_pixel]; f@face_verts[N,$H,$W,$faces_per_pixel]; "
                         "f@face_verts[N,$H,$W,$faces_per_pixel,3]; f@face_verts[N,$H,$W,$faces_per_pixel]"),
    "rasterize_meshes_backward": ("face_verts f[F,3,3]; pix_to_face i[N,H,W,K]; grad_zbuf f[N,H,W,K]; grad_bary f[N,H,W,K,3]; "
                                  "grad_dists f[N,H,W,K]; perspective_correct b; clip_barycentric_coords b", "f@face_verts[F,3,3]"),
    "sigmoid_alpha_blend": ("distances f[N,H,W,K]; pix_to_face i[N,H,W,K]; sigma x", "f@distances[N,H,W]"),
    "sigmoid_alpha_blend_backward": ("grad_alphas f[N,H,W]; alphas f[N,H,W]; distances f[N,H,W,K]; pix_to_face i[N,H,W,K]; sigma x",
                                     "f@distances[N,H,W,K]"),
    "point_edge_dist_forward": ("points f[P,3]; points_first_idx i[N]; segms f[S,2,3]; segms_first_idx i[N]; max_points n", "f@points[P]; i@points[P]"),
    "edge_point_dist_forward": ("points f[P,3]; points_first_idx i[N]; segms f[S,2,3]; segms_first_idx i[N]; max_segms n", "f@points[S]; i@points[S]"),
    "point_edge_dist_backward": ("points f[P,3]; segms f[S,2,3]; idx_points i[P]; grad_dists f[P]", "f@points[P,3]; f@segms[S,2,3]"),
    "edge_point_dist_backward": ("points f[P,3]; segms f[S,2,3]; idx_segms i[S]; grad_dists f[S]", "f@points[P,3]; f@segms[S,2,3]"),
    "point_face_dist_forward": ("points f[P,3]; points_first_idx i[N]; tris f[T,3,3]; tris_first_idx i[N]; max_points n; min_triangle_area x",
                                "f@points[P]; i@points[P]"),
    "face_point_dist_forward": ("points f[P,3]; points_first_idx i[N]; tris f[T,3,3]; tris_first_idx i[N]; max_tris n; min_triangle_area x",
                                "f@points[T]; i@points[T]"),
    "point_face_dist_backward": ("points f[P,3]; tris f[T,3,3]; idx_points i[P]; grad_dists f[P]; min_triangle_area x", "f@points[P,3]; f@tris[T,3,3]"),
    "face_point_dist_backward": ("points f[P,3]; tris f[T,3,3]; idx_tris i[T]; grad_dists f[T]; min_triangle_area x", "f@points[P,3]; f@tris[T,3,3]"),
    "point_edge_array_dist_forward": ("points f[P,3]; segms f[S,2,3]", "f@points[P,S]"),
    "point_edge_array_dist_backward": ("points f[P,3]; segms f[S,2,3]; grad_dists f[P,S]", "f@points[P,3]; f@segms[S,2,3]"),
    "point_face_array_dist_forward": ("points f[P,3]; tris f[T,3,3]; min_triangle_area x", "f@points[P,T]"),
    "point_face_array_dist_backward": ("points f[P,3]; tris f[T,3,3]; grad_dists f[P,T]; min_triangle_area x", "f@points[P,3]; f@tris[T,3,3]"),
    "_rasterize_points_naive": ("points f[P,3]; cloud_to_packed_first_idx i[N]; num_points_per_cloud i[N]; image_size hw; radius f[P]; points_per_pixel n",
                                "i32@points[N,$H,$W,$points_per_pixel]; f@points[N,$H,$W,$points_per_pixel]; f@points[N,$H,$W,$points_per_pixel]"),
    "_rasterize_meshes_naive": ("face_verts f[F,3,3]; mesh_to_face_first_idx i[N]; num_faces_per_mesh i[N]; clipped_faces_neighbor_idx i[F]; image_size hw; "
                                "blur_radius x; faces_per_pixel n; perspective_correct b; clip_barycentric_coords b; cull_backfaces b",
                                "i@face_verts[N,$H,$W,$faces_per_pixel]; f@face_verts[N,$H,$W,$faces_per_pixel]; "
                                "f@face_verts[N,$H,$W,$faces_per_pixel,3]; f@face_verts[N,$H,$W,$faces_per_pixel]"),
    "sample_pdf": ("bins f[B,Np]; weights f[B,M]; outputs f[B,S]; eps x", "", {"outputs": ("bins", "weights", "eps")}),
    "iou_box3d": ("boxes1 f[N,8,3]; boxes2 f[M,8,3]", "f@boxes1[N,M]; f@boxes1[N,M]"),
    "marching_cubes": ("vol f[A,B,E]; isolevel x", "f@vol[#V,3]; i@vol[#F,3]; i@vol[#V]"),
}
for _n in ("weightedsumnorm", "weightedsum", "alphacomposite"):
    TABLE["accum_" + _n] = ("features f[C,P]; alphas f[N,K,H,W]; points_idx i[N,K,H,W]", "f@features[N,C,H,W]")
    TABLE["accum_" + _n + "_backward"] = ("grad_outputs f[N,C,H,W]; features f[C,P]; alphas f[N,K,H,W]; points_idx i[N,K,H,W]",
                                          "f@features[C,P]; f@alphas[N,K,H,W]")


@functools.lru_cache(None)
def bindings(repo):
    """{bound name: [(param name, c type, has default)]} read from ext.cpp and the headers; None if unreadable."""
    root = os.path.join(repo, "pytorch3d", "csrc")
    out, where = {}, {}
    try:
        src = open(os.path.join(root, "ext.cpp")).read()
    except OSError:
        return {}, {}
    src = re.sub(r"//[^\n]*", "", src)
    names = re.findall(r'm\.def\(\s*"(\w+)"\s*,\s*&?([\w:]+)', src)
    texts = {}
    for h in glob.glob(os.path.join(root, "*", "*.h")) + glob.glob(os.path.join(root, "*.h")):
        t = open(h, errors="replace").read()
        t = re.sub(r"//[^\n]*", "", t)
        texts[h] = re.sub(r"/\*.*?\*/", "", t, flags=re.S)
    for n, f in names:
        f = f.split("::")[-1]
        best = None
        for h, t in texts.items():
            for m in re.finditer(r"\b" + f + r"\s*\(([^()]*(?:\([^()]*\)[^()]*)*)\)\s*(\{|;)", t):
                ps = []
                for p in re.split(r",(?![^<]*>)", m.group(1)):
                    p = re.sub(r"\s+", " ", p).strip()
                    if not p:
                        continue
                    dflt = "=" in p
                    p = p.split("=")[0].strip()
                    mm = re.match(r"(.*?)(\w+)$", p)
                    ps.append((mm.group(2), mm.group(1).replace("const", "").replace("torch::", "").replace("at::", "").replace("&", "").strip(), dflt))
                if best is None or m.group(2) == "{":
                    best = (ps, h)
        if best:
            out[n], where[n] = best
    return out, where


def parse(spec):
    res = []
    for p in spec.split(";"):
        p = p.strip()
        if p:
            nm, ty = p.split(" ", 1)
            res.append((nm, ty))
    return res


def ctype_ok(ct, v):
    """definite mismatch between a C++ parameter type and an abstract value -> reason"""
    if isinstance(v, (Top, Un)):
        return None
    if ct in ("Tensor",):
        if isinstance(v, Tn) and v.lib == "torch":
            return None
        if isinstance(v, Tn) or isinstance(v, (Sc, Tup)):
            return f"expects a tensor, got {v!r}"
        return None
    if ct in ("int", "int64_t", "long", "uint"):
        if isinstance(v, Tn):
            return f"expects an integer, got a tensor" if v.shape != () else None
        if isinstance(v, Sc) and v.kind not in ("int", "bool", "any"):
            return f"expects an integer, got {v!r}"
        if isinstance(v, Tup):
            return f"expects an integer, got a tuple"
        return None
    if ct in ("float", "double"):
        if isinstance(v, Tn):
            return "expects a number, got a tensor" if v.shape != () else None
        if isinstance(v, Sc) and v.kind not in ("int", "bool", "float", "any"):
            return f"expects a number, got {v!r}"
        return None
    if ct == "bool":
        if isinstance(v, Tn):
            return "expects a bool, got a tensor"
        if isinstance(v, Sc) and v.kind not in ("bool", "any"):
            return f"expects a bool, got {v!r}"
        return None
    if ct.startswith("std::tuple"):
        if isinstance(v, (Tn, Sc)):
            return f"expects a tuple, got {v!r}"
    return None


def call(T, name, args, kw):
    it = T.it
    b, _ = bindings(it.repo)
    ent = TABLE.get(name)
    allargs = list(args) + list(kw.values())
    d = EMPTY
    for a in allargs:
        d = d | it.deps(a)
    if name not in b:
        if ent is not None or not name.isupper() and not name.startswith("Pulsar") and not name.startswith("pulsar"):
            it.event("binding", fn=name, what="unbound", detail=f"_C.{name} is not bound in ext.cpp")
        return Top(d, hint="_C." + name)
    ps = b[name]
    if kw:
        it.event("binding", fn=name, what="kwargs", detail=f"_C.{name} is bound without keyword names")
    need = sum(1 for p in ps if not p[2])
    if not (need <= len(args) <= len(ps)):
        it.event("binding", fn=name, what="arity", detail=f"_C.{name} takes {len(ps)} arguments, call passes {len(args)}")
        return Top(d, hint="_C." + name)
    vals = {}
    for (pn, ct, _), a in zip(ps, args):
        vals[pn] = a
        why = ctype_ok(ct, a)
        if why:
            it.event("binding", fn=name, what="type", param=pn, detail=f"_C.{name}: parameter {pn} {why}")
    it.event("ccall", fn=name, args=dict(vals), deps={k: frozenset(it.deps(v)) for k, v in vals.items()})
    T.joindev([x for x in allargs if isinstance(x, Tn) and x.shape != ()], "_C." + name)
    if ent is None:
        return Top(d, hint="_C." + name)
    bind, ok = {}, True
    spec = parse(ent[0])
    if {n for n, _ in spec} - set(vals) and not all(p[2] for p in ps if p[0] not in vals):
        ok = False
    dev = None
    tens = []
    for pn, ty in spec:
        v = vals.get(pn)
        if v is None:
            if pn in [p[0] for p in ps]:
                continue
            ok = False
            continue
        m = re.match(r"(\w+)\[(.*)\]$", ty)
        if m:
            t = T.tn(v)
            if not isinstance(t, Tn):
                continue
            if pn in csrc.must_be_contiguous(it.repo, name) and t.lib == "torch" and t.shape is not None and T.strides(t) != T.contig(t.shape) and not any(x is None for x in T.strides(t)):
                it.event("layout", op="_C." + name, detail=f"parameter {pn} has to be contiguous, its strides are {tuple(map(str, T.strides(t)))} for shape {t!r}")
            if t.lib == "np":
                continue
            tens.append(t)
            want = {"f": "float32", "i": "int64", "i32": "int32"}[m.group(1)]
            if t.dtype is not None and t.dtype != want:
                it.event("dtype_mismatch", op="_C." + name, detail=f"parameter {pn} requires {want}, got {t.dtype}", binding=True, want=want, got=t.dtype)
            ds = m.group(2).split(",")
            if t.shape is not None:
                if len(t.shape) != len(ds):
                    it.event("shape_error", op="_C." + name, detail=f"parameter {pn} has rank {len(t.shape)}, expected [{m.group(2)}]")
                    continue
                for s, x in zip(ds, t.shape):
                    if s.isdigit():
                        if isinstance(x, int) and x != int(s) or (isinstance(x, dims.Dim) and not dims.is_opaque(x)):
                            it.event("shape_error", op="_C." + name, detail=f"parameter {pn} has shape {t!r}, expected [{m.group(2)}]")
                    elif s in bind and bind[s] is not None and x is not None:
                        if dims.eq(bind[s], x) is False:
                            it.event("shape_error", op="_C." + name, detail=f"parameter {pn} has shape {t!r}: size {s} is {bind[s]} elsewhere")
                        elif dims.is_opaque(bind[s]):
                            bind[s] = x
                    elif bind.get(s) is None:
                        bind[s] = x
        elif ty == "n":
            bind["$" + pn] = dimof(v)
        elif ty == "hw":
            if isinstance(v, Tup) and v.items is not None and len(v.items) == 2:
                bind["$H"], bind["$W"] = dimof(v.items[0]), dimof(v.items[1])
            else:
                items = it.P.iter_items(v) if hasattr(it.P, "seq_items") else None
                bind["$H"] = bind["$W"] = None
    T.joindev(tens, "_C." + name)
    writes = ent[2] if len(ent) > 2 else {}
    for pn, src in writes.items():
        v = vals.get(pn)
        t = T.tn(v) if v is not None else None
        if isinstance(t, Tn):
            T.write(t, [vals[s] for s in src if s in vals], op="_C." + name)
    outs = []
    fresh = {}
    for i, o in enumerate([x.strip() for x in ent[1].split(";") if x.strip()]):
        m = re.match(r"(\w+)@(\w+)\[(.*)\]$", o)
        ref = T.tn(vals[m.group(2)]) if m.group(2) in vals else None
        shape = []
        for s in m.group(3).split(","):
            if s.isdigit():
                shape.append(int(s))
            elif s == "?":
                shape.append(None)
            elif s.startswith("#"):
                if s not in fresh:
                    fresh[s] = dims.sym("[" + it.fresh_id("c") + "]")
                shape.append(fresh[s])
            else:
                shape.append(bind.get(s))
        dt = {"f": "float32", "i": "int64", "i32": "int32"}[m.group(1)]
        outs.append(Tn(shape, dt, ref.dev if isinstance(ref, Tn) else None, d | it.pc, EMPTY, frozenset([it.fresh_id("s")])))
    if not outs:
        return NONE
    if len(outs) == 1:
        return outs[0]
    return Tup(outs)
