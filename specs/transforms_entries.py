from _common import *

R = "pytorch3d.transforms.rotation_conversions:"
T3 = "pytorch3d.transforms.transform3d:"


def one(name, *shape, **kw):
    def build(h):
        return R + name, [h.T("x", *shape)], {k: v(h) for k, v in kw.items()}
    E("transforms." + name, build)


one("quaternion_to_matrix", "N", "M", 4)
one("matrix_to_quaternion", "N", "M", 3, 3)
one("standardize_quaternion", "N", "M", 4)
one("quaternion_invert", "N", "M", 4)
one("axis_angle_to_quaternion", "N", "M", 3)
one("quaternion_to_axis_angle", "N", "M", 4)
one("rotation_6d_to_matrix", "N", "M", 6)
one("matrix_to_rotation_6d", "N", "M", 3, 3)
E("transforms.axis_angle_to_matrix", lambda h, fast: (R + "axis_angle_to_matrix", [h.T("x", "N", "M", 3)], dict(fast=h.c(fast))), dict(fast=[False, True]))
E("transforms.matrix_to_axis_angle", lambda h, fast: (R + "matrix_to_axis_angle", [h.T("x", "N", "M", 3, 3)], dict(fast=h.c(fast))), dict(fast=[False, True]))
CONV = ["XYZ", "XZY", "YXZ", "YZX", "ZXY", "ZYX", "XYX", "XZX", "YXY", "YZY", "ZXZ", "ZYZ"]
E("transforms.euler_angles_to_matrix", lambda h, conv: (R + "euler_angles_to_matrix", [h.T("x", "N", "M", 3), h.c(conv)]), dict(conv=CONV))
E("transforms.matrix_to_euler_angles", lambda h, conv: (R + "matrix_to_euler_angles", [h.T("x", "N", "M", 3, 3), h.c(conv)]), dict(conv=CONV))
E("transforms.quaternion_raw_multiply", lambda h: (R + "quaternion_raw_multiply", [h.T("a", "N", 4), h.T("b", "N", 4)]))
E("transforms.quaternion_multiply", lambda h: (R + "quaternion_multiply", [h.T("a", "N", 4), h.T("b", "N", 4)]))
E("transforms.quaternion_apply", lambda h: (R + "quaternion_apply", [h.T("q", "N", 4), h.T("p", "N", 3)]))
RND = dict(given=[False, True])
for _n in ("random_quaternions", "random_rotations"):
    E("transforms." + _n, lambda h, given, _n=_n: (R + _n, [h.size("n")], dict(dtype=Sc("dtype", h.f), device=h.dev()) if given else {}), RND, rng=True, f64=False)
E("transforms.random_rotation", lambda h: (R + "random_rotation", [], dict(dtype=Sc("dtype", h.f), device=h.dev())), rng=True)
E("transforms.acos_linear_extrapolation", lambda h, b: ("pytorch3d.transforms.math:acos_linear_extrapolation", [h.T("x", "N")] + ([h.tup(h.c(-0.9), h.c(0.9))] if b else [])), dict(b=[False, True]))

S3 = "pytorch3d.transforms.so3:"
E("transforms.so3_exp_map", lambda h, fn: (S3 + fn, [h.T("x", "N", 3)], dict(eps=h.float("eps"))), dict(fn=["so3_exp_map", "so3_exponential_map"]))
E("transforms.so3_log_map", lambda h: (S3 + "so3_log_map", [h.T("x", "N", 3, 3)], dict(eps=h.float("eps"), cos_bound=h.float("cos_bound"))))
E("transforms.so3_rotation_angle", lambda h, cos: (S3 + "so3_rotation_angle", [h.T("x", "N", 3, 3)], dict(eps=h.float("eps"), cos_angle=h.c(cos), cos_bound=h.float("cos_bound"))), dict(cos=[False, True]))
E("transforms.so3_relative_angle", lambda h, cos: (S3 + "so3_relative_angle", [h.T("a", "N", 3, 3), h.T("b", "N", 3, 3)], dict(eps=h.float("eps"), cos_angle=h.c(cos), cos_bound=h.float("cos_bound"))), dict(cos=[False, True]))
E("transforms.hat", lambda h: (S3 + "hat", [h.T("x", "N", 3)]))
E("transforms.hat_inv", lambda h: (S3 + "hat_inv", [h.T("x", "N", 3, 3)]))
E3 = "pytorch3d.transforms.se3:"
E("transforms.se3_exp_map", lambda h: (E3 + "se3_exp_map", [h.T("x", "N", 6)], dict(eps=h.float("eps"))))
E("transforms.se3_log_map", lambda h: (E3 + "se3_log_map", [h.T("x", "N", 4, 4)], dict(eps=h.float("eps"), cos_bound=h.float("cos_bound"))))

# ---- Transform3d --------------------------------------------------------------------------
TK = ["matrix", "matrix1", "translate", "scale", "rotate", "axis", "composed"]


def dt(h):
    return Sc("dtype", h.f)


def transform(h, kind, p="t", n="N"):
    if kind == "matrix":
        return h.call(T3 + "Transform3d", matrix=h.T(f"{p}.m", n, 4, 4), device=h.dev(), dtype=dt(h))
    if kind == "matrix1":
        return h.call(T3 + "Transform3d", matrix=h.T(f"{p}.m", 4, 4), device=h.dev(), dtype=dt(h))
    if kind == "identity":
        return h.call(T3 + "Transform3d", device=h.dev(), dtype=dt(h))
    if kind == "translate":
        return h.call(T3 + "Translate", h.T(f"{p}.x", n, 3), device=h.dev(), dtype=dt(h))
    if kind == "scale":
        return h.call(T3 + "Scale", h.T(f"{p}.x", n), h.T(f"{p}.y", n), h.T(f"{p}.z", n), device=h.dev(), dtype=dt(h))
    if kind == "rotate":
        return h.call(T3 + "Rotate", h.T(f"{p}.R", n, 3, 3), device=h.dev(), dtype=dt(h))
    if kind == "axis":
        return h.call(T3 + "RotateAxisAngle", h.T(f"{p}.a", n), h.c("Y"), device=h.dev(), dtype=dt(h))
    if kind == "composed":
        t = transform(h, "matrix", p, n)
        t = h.m(t, "compose", transform(h, "rotate", p + "1", n), transform(h, "translate", p + "2", n), transform(h, "matrix", p + "3", n))
        return t
    raise KeyError(kind)


def EK(name, f, scen, **k):
    def build(h, kind, **s):
        o = h.own("self", transform(h, kind))
        meth_, a, *kw = f(h, o, **s)
        return lambda: h.it.call_method(o, meth_, list(a), kw[0] if kw else {})
    E("transforms.Transform3d." + name, build, dict(kind=TK, **scen), **k)


E("transforms.Transform3d", lambda h, kind: (lambda: transform(h, kind)), dict(kind=TK + ["identity"]))
IN = ["none", "y", "z"]
E("transforms.Translate.init", lambda h, how: (T3 + "Translate", [h.float("x"), h.T("y", "N"), h.T("z", 1)] if how == "mix" else [h.float("x"), h.float("y"), h.float("z")] if how == "scalar" else [h.T("xyz", "N", 3)],
  dict(device=h.dev(), dtype=Sc("dtype", h.f))), dict(how=["mix", "scalar", "tensor"]))
E("transforms.Scale.init", lambda h, how: (T3 + "Scale", [h.float("x"), h.T("y", "N"), h.T("z", 1)] if how == "mix" else [h.float("x")] if how == "scalar" else [h.T("xyz", "N", 3)] if how == "tensor" else [h.T("s", "N")],
  dict(device=h.dev(), dtype=Sc("dtype", h.f))), dict(how=["mix", "scalar", "tensor", "single"]))
E("transforms.RotateAxisAngle.init", lambda h, how, axis, deg: (T3 + "RotateAxisAngle", [h.T("a", "N") if how == "tensor" else h.float("a"), h.c(axis)], dict(degrees=h.c(deg), device=h.dev(), dtype=Sc("dtype", h.f))),
  dict(how=["tensor", "scalar"], axis=["X", "Y", "Z"], deg=[True, False]))
EK("get_matrix", lambda h, o: ("get_matrix", []), {})
EK("get_se3_log", lambda h, o: ("get_se3_log", [], dict(eps=h.float("eps"), cos_bound=h.float("cos_bound"))), {})
EK("inverse", lambda h, o, ic: ("inverse", [], dict(invert_composed=h.c(ic))), dict(ic=[False, True]))
EK("compose", lambda h, o, k2: ("compose", [transform(h, k2, "u")]), dict(k2=["matrix", "rotate", "matrix1", "composed"]))
EK("stack", lambda h, o, k2: ("stack", [transform(h, k2, "u", "M")]), dict(k2=["matrix", "rotate", "composed"]))
EK("transform_points", lambda h, o, nd, eps: ("transform_points", [h.T("points", *(("P", 3) if nd == 2 else ("N", "P", 3)))], dict(eps=h.float("eps")) if eps else {}), dict(nd=[2, 3], eps=[False, True]))
EK("transform_normals", lambda h, o, nd: ("transform_normals", [h.T("normals", *(("P", 3) if nd == 2 else ("N", "P", 3)))]), dict(nd=[2, 3]))
EK("translate", lambda h, o, how: ("translate", [h.T("xyz", "N", 3)] if how == "tensor" else [h.float("x"), h.float("y"), h.float("z")]), dict(how=["tensor", "scalar"]))
EK("scale", lambda h, o, how: ("scale", [h.T("xyz", "N", 3)] if how == "tensor" else [h.float("x"), h.float("y"), h.float("z")]), dict(how=["tensor", "scalar"]))
EK("rotate", lambda h, o: ("rotate", [h.T("R", "N", 3, 3)]), {})
EK("rotate_axis_angle", lambda h, o, deg: ("rotate_axis_angle", [h.T("angle", "N"), h.c("Z")], dict(degrees=h.c(deg))), dict(deg=[True, False]))
EK("rotate_axis_angle.scalar", lambda h, o, axis: ("rotate_axis_angle", [h.float("angle"), h.c(axis)]), dict(axis=["X", "Z"]))
EK("clone", lambda h, o: ("clone", []), {}, noalias=True, carry=True)
EK("to", lambda h, o, copy: ("to", [h.dev("E")], dict(copy=h.c(copy))), dict(copy=[False, True]), carry=True)
EK("to.copy", lambda h, o: ("to", [h.dev("D")], dict(copy=h.c(True))), {}, carry=True, noalias=True)
EK("to.dtype", lambda h, o: ("to", [h.dev("D")], dict(dtype=h.it.getattr(h.it.ext("torch"), "float64") if False else Sc("dtype", "float64"))), {}, carry=True)
EK("cpu", lambda h, o: ("cpu", []), {}, carry=True)
EK("getitem", lambda h, o, how: ("__getitem__", [{"int": lambda: h.c(1), "slice": lambda: h.slice(0, 1), "list": lambda: h.L(h.c(1), h.c(0)), "long": lambda: h.I("index", "M"), "bool": lambda: h.B("index", h.m(o, "get_matrix").shape[0])}[how]()]),
   dict(how=["int", "slice", "list", "long", "bool"]), carry=True)
