"""User-supplied callables for entries that take one (analysed together with the code that calls them)."""
import torch


def volume_fn(ray_bundle, cameras=None, scale=None, **kwargs):
    o, d, l = ray_bundle.origins, ray_bundle.directions, ray_bundle.lengths
    p = o[..., None, :] + d[..., None, :] * l[..., None]
    dens = torch.sigmoid(p.norm(dim=-1, keepdim=True))
    if scale is not None:
        dens = dens * scale
    return dens, torch.nn.functional.normalize(p, dim=-1)


class ImplicitFn(torch.nn.Module):
    """densities and features at the points of a ray bundle"""

    def __init__(self):
        super().__init__()
        self.lin = torch.nn.Linear(3, 4)

    def forward(self, *, ray_bundle, fun_viewpool=None, camera=None, global_code=None, **kwargs):
        p = ray_bundle.origins[..., None, :] + ray_bundle.directions[..., None, :] * ray_bundle.lengths[..., None]
        x = self.lin(p)
        return x[..., :1], x[..., 1:], {}

    def on_bind_args(self):
        pass


class SRNFn(torch.nn.Module):
    """raymarching features at points; opacities and colours of given features"""

    def __init__(self):
        super().__init__()
        self.lin = torch.nn.Linear(3, 8)
        self.out = torch.nn.Linear(8, 4)

    def forward(self, *, ray_bundle, raymarch_features=None, **kwargs):
        if raymarch_features is None:
            p = ray_bundle.origins[..., None, :] + ray_bundle.directions[..., None, :] * ray_bundle.lengths[..., None]
            return self.lin(p), None
        x = self.out(raymarch_features)
        return x[..., :1], x[..., 1:]

    def on_bind_args(self):
        pass


class SDF(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.lin = torch.nn.Linear(3, 4)

    def forward(self, *, rays_points_world, **kwargs):
        return self.lin(rays_points_world)

    def on_bind_args(self):
        pass


def sdf_fn(p):
    return p.norm(dim=-1) - 1


class PoolFn(torch.nn.Module):
    """view pooled features of points (N, P, 3): (N, n_src, P, dim)"""

    def __init__(self, dim, src):
        super().__init__()
        self.lin = torch.nn.Linear(3, dim)
        self.src = src

    def forward(self, pts):
        x = self.lin(pts)
        return x[:, None].expand(x.shape[0], self.src, x.shape[1], x.shape[2])


class Net(torch.nn.Module):
    """a model of the user: may raise at any call"""

    def __init__(self):
        super().__init__()
        self.lin = torch.nn.Linear(3, 3)

    def forward(self, x=None, **kw):
        if x is not None and x.sum() > 0:
            raise RuntimeError("of the user")
        return self.lin(x)


def run_evaluating(net, x):
    from pytorch3d.implicitron.tools.utils import evaluating

    with evaluating(net) as m:
        y = m(x)
    return y, net(x)


class Data:
    def sequence_indices_in_order(self, name):
        return iter([3, 1, 2])
