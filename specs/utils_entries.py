"""Utilities: primitive meshes, common helpers, dataset helpers."""
from _common import *
from sa import dims

U = "pytorch3d.utils."
CM = "pytorch3d.common."
E("utils.ico_sphere", lambda h, level: (U + "ico_sphere:ico_sphere", [h.c(level)], dict(device=h.dev())), dict(level=[0, 1]), f64=False)
E("utils.torus", lambda h: (U + "torus:torus", [h.float("r"), h.float("R"), h.c(4), h.c(5)], dict(device=h.dev())), f64=False)
E("utils.checkerboard", lambda h: (U + "checkerboard:checkerboard", [h.c(2), h.tup(*[h.float("c1") for _ in range(3)]), h.tup(*[h.float("c2") for _ in range(3)])], dict(device=h.dev())), f64=False)
E("utils.meshgrid_ij", lambda h: (CM + "compat:meshgrid_ij", [h.T("a", "A"), h.T("b", "B")]))
E("utils.get_device", lambda h, dev: (CM + "datatypes:get_device", [h.T("a", "A"), h.dev("E") if dev else NONE]), dict(dev=[True, False]), f64=False)

DS = "pytorch3d.datasets."
E("utils.collate_batched_meshes", lambda h, tex: (DS + "utils:collate_batched_meshes", [h.L(*[h.D(verts=h.T("v", f"V{i}", 3), faces=h.I("f", f"F{i}", 3), label=h.str("label"), **({"textures": h.T("tex", f"F{i}", 4, 4, 3)} if tex else {})) for i in range(2)])]), dict(tex=[True, False]), f64=False)
R2 = DS + "r2n2.utils:"
E("utils.collate_batched_R2N2", lambda h: (R2 + "collate_batched_R2N2", [h.L(*[h.D(verts=h.T("v", f"V{i}", 3), faces=h.I("f", f"F{i}", 3), label=h.str("label"), images=h.T("img", "W", "H", "H", 3), R=h.T("R", "W", 3, 3), T=h.T("T", "W", 3), K=h.T("K", "W", 4, 4), voxels=h.T("vox", "W", "D", "D", "D")) for i in range(2)])]), f64=False)
E("utils.compute_extrinsic_matrix", lambda h: (R2 + "compute_extrinsic_matrix", [h.float("azimuth"), h.float("elevation"), h.float("distance")]), f64=False)
E("utils.align_bbox", lambda h: (R2 + "align_bbox", [h.T("src", "A", 3), h.T("tgt", "B", 3)]))
E("utils.voxelize", lambda h: (R2 + "voxelize", [h.T("coords", "A", 3), h.T("P", 4, 4), h.size("V")]), f64=False)
E("utils.project_verts", lambda h, nd: (R2 + "project_verts", [h.T("verts", *(["N"] if nd else []), "V", 3), h.T("P", *(["N"] if nd else []), 4, 4)], dict(eps=h.float("eps"))), dict(nd=[0, 1]), f64=False)
E("utils.BlenderCamera", lambda h: (lambda: h.m(h.call(R2 + "BlenderCamera", R=h.T("R", "N", 3, 3), T=h.T("T", "N", 3), K=h.T("K", "N", 4, 4), device=h.dev()), "get_full_projection_transform")), f64=False)
