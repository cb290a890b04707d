"""The simulated random source: every value numpy's global generator could deliver, the rare ones too."""
import numpy as np

from .engine import take_rng

ONE = 1.0 - 2.0 ** -53
CORNERS = [0.0, 2.0 ** -53, 2.0 ** -30, 0.25, 0.5, 0.75, 1.0 - 2.0 ** -30, ONE]
NORMALS = [3e-24, 1e-12, 1e-4, 0.6744897501960817, 1.0, 3.0, 8.5]
MODES = ["iid", "corner", "corner", "stuck", "low", "high", "sparse", "sparse", "alternate"]
PATIENCE = 60         # after that many draws in one call the source becomes an ordinary one


class Source:
    """Answers np.random.* calls; one mode per call of the library."""

    def __init__(self, seed, mode):
        self.rs = take_rng(seed)
        self.mode = mode
        self.stuck = CORNERS[self.rs.randint(len(CORNERS))] if self.rs.rand() < .7 else self.rs.rand()
        self.zstuck = NORMALS[self.rs.randint(len(NORMALS))] * (1 if self.rs.rand() < .5 else -1)
        self.n, self.special = 0, 0
        self.flip = 0
        self.lastzero = False

    def ordinary(self):
        return self.mode == "iid" or self.n > PATIENCE

    # -- uniforms in [0, 1)
    def u(self, size=None):
        self.n += 1
        shape = () if size is None else ((int(size),) if np.ndim(size) == 0 else tuple(int(s) for s in size))
        rs = self.rs
        if self.ordinary():
            x = rs.random_sample(shape)
        else:
            self.special += 1
            m = self.mode
            if m == "corner":
                x = np.array(CORNERS)[rs.randint(len(CORNERS), size=shape)]
            elif m == "stuck":
                x = np.full(shape, self.stuck)
            elif m == "low":
                x = np.zeros(shape)
            elif m == "high":
                x = np.full(shape, ONE)
            elif m == "alternate":
                self.flip ^= 1
                x = np.full(shape, ONE if self.flip else 0.0)
            else:
                x = np.array(rs.random_sample(shape))
                if x.size:
                    x.flat[rs.randint(x.size)] = CORNERS[rs.randint(len(CORNERS))]
        return float(x) if size is None else np.array(x)

    # -- standard normals; never two zeros that a sampler could pair
    def z(self, size=None):
        self.n += 1
        shape = () if size is None else ((int(size),) if np.ndim(size) == 0 else tuple(int(s) for s in size))
        rs = self.rs
        if self.ordinary():
            x = rs.standard_normal(shape)
            return float(x) if size is None else np.array(x)
        self.special += 1
        sign = np.where(rs.random_sample(shape) < .5, -1.0, 1.0)
        if self.mode in ("stuck",):
            x = np.full(shape, self.zstuck)
        elif self.mode == "low":
            x = sign * NORMALS[0]
        elif self.mode == "high":
            x = sign * NORMALS[-1]
        elif self.mode == "sparse":
            x = np.array(rs.standard_normal(shape))
            if x.size:
                x.flat[rs.randint(x.size)] = NORMALS[rs.randint(len(NORMALS))]
        else:
            x = sign * np.array(NORMALS)[rs.randint(len(NORMALS), size=shape)]
        x = np.array(x)
        if x.ndim == 2 and 2 in x.shape and x.size:      # an exact zero, in one of the two coordinates only
            if rs.rand() < .5:
                j = rs.randint(max(x.shape))
                i = rs.randint(2)
                if x.shape[0] == 2 and j < x.shape[1]:
                    x[i, j] = 0.0
                elif x.shape[1] == 2 and j < x.shape[0]:
                    x[j, i] = 0.0
        return float(x) if size is None else x

    def __call__(self, name, args, kw):
        f = getattr(self, "f_" + name, None)
        if f is None:
            self.n += 1
            return getattr(self.rs, name)(*args, **kw)
        return f(*args, **kw)

    def f_rand(self, *d):
        return self.u(d if d else None)

    def f_random_sample(self, size=None):
        return self.u(size)
    f_random = f_ranf = f_sample = f_random_sample

    def f_uniform(self, low=0.0, high=1.0, size=None):
        if size is None and (np.ndim(low) or np.ndim(high)):
            size = np.broadcast(low, high).shape
        return low + (np.asarray(high) - low) * self.u(size) if size is not None else low + (high - low) * self.u()

    def f_randn(self, *d):
        return self.z(d if d else None)

    def f_standard_normal(self, size=None):
        return self.z(size)

    def f_normal(self, loc=0.0, scale=1.0, size=None):
        if size is None and (np.ndim(loc) or np.ndim(scale)):
            size = np.broadcast(loc, scale).shape
        return loc + np.asarray(scale) * self.z(size) if size is not None else loc + scale * self.z()

    def f_standard_exponential(self, size=None):
        return -np.log1p(-self.u(size))

    def f_exponential(self, scale=1.0, size=None):
        return scale * -np.log1p(-self.u(size))

    def f_randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        u = self.u(size)
        x = np.floor(low + u * (np.asarray(high) - low))
        return int(x) if size is None else x.astype(dtype)

    def f_permutation(self, x):
        n = int(x) if np.ndim(x) == 0 else len(x)
        p = np.argsort(self.u(n), kind="stable")
        return p if np.ndim(x) == 0 else np.array(np.asarray(x)[p])

    def f_shuffle(self, x):
        p = np.argsort(self.u(len(x)), kind="stable")
        if isinstance(x, np.ndarray):
            x[...] = x[p]
        else:
            x[:] = [x[i] for i in p]
