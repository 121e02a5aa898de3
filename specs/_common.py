"""Abstract input builders shared by the entry files."""
from sa.harness import *
from sa.spec import E, meth, observers

DEV = "D"


def meshes(h, p="m", kind="list", tex=None, n=2, normals=False, textures=None):
    """A Meshes built from caller tensors; labels p.v, p.f, ..."""
    kw = {}
    n = h.count(n) if kind == "list" else n
    if kind == "list":
        v = h.L(*[h.T(f"{p}.v{i}", f"{p}V{i}", 3) for i in range(n)])
        f = h.L(*[h.I(f"{p}.f{i}", f"{p}F{i}", 3, nonneg=True) for i in range(n)])
        if normals:
            kw["verts_normals"] = h.L(*[h.T(f"{p}.vn{i}", f"{p}V{i}", 3) for i in range(n)])
    else:
        v = h.T(f"{p}.v", "N", f"{p}V", 3)
        f = h.I(f"{p}.f", "N", f"{p}F", 3)
        if normals:
            kw["verts_normals"] = h.T(f"{p}.vn", "N", f"{p}V", 3)
    if tex is not None:
        kw["textures"] = mesh_textures(h, tex, p, kind, n)
    if textures is not None:
        kw["textures"] = textures
    return h.call("pytorch3d.structures.meshes:Meshes", v, f, **kw)


def textures(h, tex, p="m", kind="list", n=2):
    if tex == "vertex":
        a = h.L(*[h.T(f"{p}.tv{i}", f"{p}V{i}", "C") for i in range(n)]) if kind == "list" else h.T(f"{p}.tv", "N", f"{p}V", "C")
        return h.call("pytorch3d.renderer.mesh.textures:TexturesVertex", a)
    if tex == "atlas":
        a = h.L(*[h.T(f"{p}.ta{i}", f"{p}F{i}", "R", "R", "C") for i in range(n)]) if kind == "list" else h.T(f"{p}.ta", "N", f"{p}F", "R", "R", "C")
        return h.call("pytorch3d.renderer.mesh.textures:TexturesAtlas", a)
    if tex == "uv":
        nn = n if kind == "list" else "N"
        if kind == "list":
            return h.call("pytorch3d.renderer.mesh.textures:TexturesUV", h.T(f"{p}.map", n, "Hm", "Wm", "C"),
                          h.L(*[h.I(f"{p}.fuv{i}", f"{p}F{i}", 3) for i in range(n)]), h.L(*[h.T(f"{p}.vuv{i}", f"{p}U{i}", 2) for i in range(n)]))
        return h.call("pytorch3d.renderer.mesh.textures:TexturesUV", h.T(f"{p}.map", "N", "Hm", "Wm", "C"),
                      h.I(f"{p}.fuv", "N", f"{p}F", 3), h.T(f"{p}.vuv", "N", f"{p}U", 2))
    raise KeyError(tex)


mesh_textures = textures


def clouds(h, p="p", kind="list", n=2, normals=True, features=True, P=None):
    kw = {}
    n = h.count(n) if kind == "list" else n
    P = P or p + "P"
    if kind == "list":
        pts = h.L(*[h.T(f"{p}.p{i}", f"{P}{i}", 3) for i in range(n)])
        if normals:
            kw["normals"] = h.L(*[h.T(f"{p}.n{i}", f"{P}{i}", 3) for i in range(n)])
        if features:
            kw["features"] = h.L(*[h.T(f"{p}.c{i}", f"{P}{i}", "C") for i in range(n)])
    else:
        pts = h.T(f"{p}.p", "N", P, 3)
        if normals:
            kw["normals"] = h.T(f"{p}.n", "N", P, 3)
        if features:
            kw["features"] = h.T(f"{p}.c", "N", P, "C")
    return h.call("pytorch3d.structures.pointclouds:Pointclouds", pts, **kw)


def M(*names):
    return {n: meth(n) for n in names}


def A(*names):
    return {"." + n: (lambda h, o, n=n: h.get(o, n)) for n in names}


MESH_ACC = ("verts_list verts_packed verts_padded faces_list faces_packed faces_padded mesh_to_verts_packed_first_idx mesh_to_faces_packed_first_idx "
            "verts_packed_to_mesh_idx num_verts_per_mesh num_faces_per_mesh faces_packed_to_mesh_idx edges_packed edges_packed_to_mesh_idx mesh_to_edges_packed_first_idx "
            "faces_packed_to_edges_packed num_edges_per_mesh verts_padded_to_packed_idx verts_normals_packed verts_normals_padded verts_normals_list "
            "faces_normals_packed faces_normals_padded faces_normals_list faces_areas_packed laplacian_packed get_bounding_boxes").split()
CLOUD_ACC = ("points_list points_packed points_padded normals_list normals_packed normals_padded features_list features_packed features_padded "
             "packed_to_cloud_idx cloud_to_packed_first_idx num_points_per_cloud padded_to_packed_idx get_bounding_boxes").split()


def length(h, o):
    return h.m(o, "__len__")


observers("Meshes", len=length, **M(*MESH_ACC), **A("device", "textures", "valid", "equisized"))
observers("Pointclouds", len=length, **M(*CLOUD_ACC), **A("device", "valid", "equisized"))
observers("Volumes", len=length, **M("features", "densities", "features_list", "densities_list", "get_grid_sizes", "get_local_to_world_coords_transform", "get_world_to_local_coords_transform",
                                     "get_coord_grid", "get_align_corners"), **A("device"))
observers("VolumeLocator", len=length, **M("get_grid_sizes", "get_local_to_world_coords_transform", "get_world_to_local_coords_transform", "get_coord_grid"))
observers("TexturesVertex", **M("verts_features_list", "verts_features_padded", "verts_features_packed", "isempty"))
observers("TexturesAtlas", **M("atlas_list", "atlas_padded", "atlas_packed", "isempty"))
observers("TexturesUV", **M("faces_uvs_list", "faces_uvs_padded", "verts_uvs_list", "verts_uvs_padded", "maps_padded", "maps_list", "maps_ids_padded", "maps_ids_list", "isempty"),
          **A("align_corners", "padding_mode", "sampling_mode"))
observers("Transform3d", len=length, **M("get_matrix"), **A("device", "dtype"))
TR = {"get_matrix": meth("get_matrix")}
CAM = ("get_projection_transform", "get_camera_center", "get_world_to_view_transform", "get_full_projection_transform", "get_ndc_camera_transform", "get_znear", "get_image_size", "is_perspective", "in_ndc")
observers("FoVPerspectiveCameras", len=length, **A("R", "T", "K", "znear", "zfar", "aspect_ratio", "fov", "degrees", "device"), **M("is_perspective", "in_ndc"))
observers("FoVOrthographicCameras", len=length, **A("R", "T", "K", "znear", "zfar", "max_y", "min_y", "max_x", "min_x", "scale_xyz", "device"), **M("is_perspective", "in_ndc"))
observers("PerspectiveCameras", len=length, **A("R", "T", "K", "focal_length", "principal_point", "image_size", "device"), **M("is_perspective", "in_ndc", "get_image_size"))
observers("OrthographicCameras", len=length, **A("R", "T", "K", "focal_length", "principal_point", "image_size", "device"), **M("is_perspective", "in_ndc", "get_image_size"))
observers("FishEyeCameras", len=length, **A("R", "T", "focal", "principal_point", "radial_params", "tangential_params", "thin_prism_params", "image_size", "world_coordinates", "use_radial", "use_tangential", "use_thin_prism", "device"))


def cameras(h, cls="fovp", n="N", p="c", K=False, ndc=True, imsize=None, vals="tensor"):
    """a batch of n cameras built from caller tensors"""
    C = "pytorch3d.renderer.cameras:"
    kw = dict(R=h.T(f"{p}.R", n, 3, 3), T=h.T(f"{p}.T", n, 3), device=h.dev())
    t = (lambda name: h.T(f"{p}.{name}", n)) if vals == "tensor" else (lambda name: h.float(f"{p}.{name}"))
    if K:
        kw["K"] = h.T(f"{p}.K", n, 4, 4)
    if cls == "fovp":
        kw.update(znear=t("znear"), zfar=t("zfar"), aspect_ratio=t("aspect"), fov=t("fov"))
        return h.call(C + "FoVPerspectiveCameras", **kw)
    if cls == "fovo":
        kw.update(znear=t("znear"), zfar=t("zfar"), max_y=t("max_y"), min_y=t("min_y"), max_x=t("max_x"), min_x=t("min_x"), scale_xyz=h.T(f"{p}.scale", n, 3))
        return h.call(C + "FoVOrthographicCameras", **kw)
    if cls == "fisheye":
        kw.pop("K", None)
        return h.call("pytorch3d.renderer.fisheyecameras:FishEyeCameras", h.T(f"{p}.focal", n, 1), h.T(f"{p}.pp", n, 2), h.T(f"{p}.rad", n, 6), h.T(f"{p}.tan", n, 2), h.T(f"{p}.thin", n, 4), **kw)
    kw.update(focal_length=h.T(f"{p}.focal", n, 2), principal_point=h.T(f"{p}.pp", n, 2), in_ndc=h.c(ndc))
    if imsize or not ndc:
        kw["image_size"] = h.T(f"{p}.imsize", n, 2, grad=False)
    return h.call(C + ("PerspectiveCameras" if cls == "persp" else "OrthographicCameras"), **kw)
