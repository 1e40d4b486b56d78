"""What one step of a universe is, written down once more and on its own.

float64 numpy, straight from the definitions: kernels are sampled on a square
of side 2r+1 with distances scaled by r and normalised to sum one; a universe
is convolved with them; genesis and persistence turn neighbourhoods into
growth; growth is averaged over internal channels; the grid moves by the step
size times growth and is clipped to 0..1.  Nothing here imports yuca.
"""
import numpy as np

EPS = 1e-9


def arr(x):
    if hasattr(x, "detach"):
        x = x.detach().cpu().numpy()
    return np.asarray(x, dtype=np.float64)


def f32(x):
    return np.asarray(arr(x), dtype=np.float32).astype(np.float64)


def bell(x, mu, sigma):
    with np.errstate(over="ignore", under="ignore", divide="ignore", invalid="ignore"):
        return np.exp(-((x - mu) / (EPS + sigma)) ** 2 / 2)


# --------------------------------------------------------------- functions
class Fn:
    """a growth function (or the profile of a kernel): name, mode and arrays"""

    def __init__(self, cfg):
        self.name, self.mode = cfg["name"], cfg.get("mode", 0)
        n = self.name
        self.p = []                 # adjustable arrays, in the order get_params gives them
        if n == "Gaussian":
            self.p = [f32(cfg.get("mu", 0.0)).reshape(-1), f32(cfg.get("sigma", .1)).reshape(-1)]
        elif n == "DoGaussian":
            self.p = [f32(cfg.get("mu", 0.0)).reshape(-1), f32(cfg.get("sigma", .1)).reshape(-1)]
            self.dx = cfg.get("dx", 1e-2)
        elif n == "DoubleGaussian":
            self.p = [f32(cfg.get(k, d)).reshape(-1) for k, d in (("mu", 0.0), ("sigma", .1))]
            self.p = [np.repeat(v, 2) if v.size == 1 else v for v in self.p]
        elif n == "GaussianMixture":
            v = f32(cfg.get("parameters", [.5, .15])).reshape(-1)
            if v.size % 3 == 0:
                self.amp = v[0::3]
                self.p = [x.reshape(-1) for k in range(0, v.size, 3) for x in (v[k + 1:k + 2], v[k + 2:k + 3])]
            else:
                self.amp = np.ones(v.size // 2)
                self.p = [x.reshape(-1) for k in range(0, v.size, 2) for x in (v[k:k + 1], v[k + 1:k + 2])]
        elif n == "Polynomial":
            self.p = [f32(cfg.get("coefficients", [.1, .1, .1])).reshape(-1)]
        elif n == "SmoothIntervals":
            self.intervals = f32(cfg.get("parameters", [[.185, .375]]))
            self.alpha = float(arr(cfg.get("alpha", .0125)).reshape(-1)[0])
        elif n == "CosOverX2":
            self.mu, self.omega = float(f32(cfg.get("mu", 0.))), float(f32(cfg.get("omega", 25.12)))
        elif n == "SmoothLifeKernel":
            self.r_a, self.r_i = cfg.get("r_a", 1.), cfg.get("r_i", 1 / 3.)
        elif n == "LaplacianOfGaussian":
            self.sigma = float(arr(cfg.get("sigma", .5)))
        elif n not in ("Identity", "Tanh", "ReLU"):
            raise KeyError(n)

    def count(self):
        return sum(v.size for v in self.p)

    def set(self, values):
        i = 0
        for k, v in enumerate(self.p):
            self.p[k] = f32(values[i:i + v.size]).reshape(-1)
            i += v.size

    def get(self):
        return np.concatenate(self.p) if self.p else np.array([])

    def __call__(self, x):
        n, m, p = self.name, self.mode, self.p
        if n == "Gaussian":
            g = bell(x, p[0][0], p[1][0])
            return 2 * g - 1 if m else g
        if n == "GaussianMixture":
            g = sum(a * bell(x, p[2 * k][0], p[2 * k + 1][0]) for k, a in enumerate(self.amp))
            return np.clip(2 * g - 1, -1, 1) if m else np.clip(g, 0, 1)
        if n == "DoubleGaussian":
            g = bell(x, p[0][0], p[1][0]) + bell(x, p[0][1], p[1][1])
            return np.clip(2 * g - 1, -1, 1) if m else np.clip(g, 0, 1)
        if n == "DoGaussian":
            a, b = bell(x + self.dx, p[0][0], p[1][0]), bell(x - self.dx, p[0][0], p[1][0])
            return a - 2 * b - 1 if m else a - b
        if n == "Polynomial":
            g = sum(c * x ** k for k, c in enumerate(p[0]))
            return 2 * g - 1 if m else g
        if n == "SmoothIntervals":
            with np.errstate(over="ignore"):
                s = lambda mu: 1 / (1 + np.exp(-4 * (x - mu) / self.alpha))
                g = 0. * x
                for lo, hi in self.intervals:
                    g = g + s(lo) * (1 - s(hi))
            return 2 * g - 1 if m else g
        if n == "CosOverX2":
            d = np.abs(self.mu - x)
            g = np.cos(self.omega * d) / (1 + (10 * d) ** 2)
            return g if m else g + 1
        if n == "SmoothLifeKernel":
            return ((x >= self.r_i) & (x <= self.r_a)) * 1.0
        if n == "LaplacianOfGaussian":
            s = self.sigma
            g = -(1 / (np.pi * s ** 4)) * (1 - x ** 2 / (2 * s ** 2)) * np.exp(-x ** 2 / (2 * s ** 2))
            g = g - g.mean()
            return g / np.abs(g).sum()
        if n == "Tanh":
            return np.tanh(x)
        if n == "ReLU":
            return np.maximum(x, 0)
        return x


def kernel(cfg):
    """2-d array"""
    n = cfg["name"]
    if n == "InnerMoore":
        k = np.zeros((3, 3))
        k[1, 1] = 1
        return k
    r = int(cfg["radius"])
    if n == "MooreLike":
        k = np.ones((2 * r + 1, 2 * r + 1))
        k[r, r] = 0
        return k / k.sum()
    a = np.arange(-r, r + 1)
    d = np.sqrt(a[:, None] ** 2 + a[None, :] ** 2) / r
    k = Fn(dict(cfg.get("kernel_kwargs", {}), name=n))(d)
    if n == "LaplacianOfGaussian":
        return k
    k = k - k.min()
    return k / (EPS + k.sum())


PAD = {"circular": "wrap", "zeros": "constant", "reflect": "reflect", "replicate": "edge"}


def convolve(u, kern, internal, mode):
    """u: (batch, external, h, w) -> (batch, internal, h, w)"""
    B, E, H, W = u.shape
    groups = 1 if internal % E else E
    r = (kern.shape[0] - 1) // 2
    x = np.pad(u, ((0, 0), (0, 0), (r, r), (r, r)), mode=PAD[mode])
    out = np.zeros(u.shape)
    for i in range(kern.shape[0]):
        for j in range(kern.shape[1]):
            if kern[i, j]:
                out += kern[i, j] * x[:, :, i:i + H, j:j + W]
    if groups == 1:
        return np.repeat(out.sum(axis=1, keepdims=True), internal, axis=1)
    return np.repeat(out, internal // groups, axis=1)


ACT = {"Tanh": np.tanh, "ReLU": lambda x: np.maximum(x, 0), "SiLU": lambda x: x / (1 + np.exp(-x)),
       "ELU": lambda x: np.where(x > 0, x, np.expm1(np.minimum(x, 0))), "Sigmoid": lambda x: 1 / (1 + np.exp(-x)),
       "Identity": lambda x: x}


class Model:
    """a universe as its description: kernels, growth, channels, step size"""

    def __init__(self, family, external=1, internal=1, mode="circular", threshold=.1):
        self.family, self.external, self.internal = family, external, internal
        self.mode, self.threshold = mode, threshold
        self.id_cfg = {"name": "InnerMoore"}
        self.kernel_cfg = None
        self.gen, self.per = [], []
        self.dt = 0.1
        self.act, self.hidden, self.net = None, None, []
        self.rxn, self.dx = [], None
        self.dgrid = None

    # what a config says
    def load(self, c):
        if self.family == "RxnDfn":
            self.rxn = [float(v) for v in arr(c["params"]).reshape(-1)]
            self.dt = float(arr(c.get("dt", .5)).reshape(-1)[0])
            self.dx = float(arr(c.get("dx", 1 / 330.)).reshape(-1)[0])
        else:
            as_list = lambda v: list(v) if isinstance(v, (list, tuple)) else [v]
            self.gen = [Fn(f) for f in as_list(c["genesis_config"])]
            self.per = [Fn(f) for f in as_list(c["persistence_config"])]
            self.dt = float(arr(c.get("dt", .1)).reshape(-1)[0])
        self.id_cfg = c.get("identity_kernel_config", {"name": "InnerMoore"})
        self.kernel_cfg = dict(c["neighborhood_kernel_config"])

    def kernel_params(self):
        kk = self.kernel_cfg.get("kernel_kwargs", {})
        keys = {"Gaussian": ["mu", "sigma"], "GaussianMixture": ["parameters"]}.get(self.kernel_cfg["name"], [])
        return np.concatenate([arr(kk[k]).reshape(-1) for k in keys if k in kk] or [np.array([])])

    def set_kernel_params(self, p):
        self.kernel_cfg = {"name": "GaussianMixture", "radius": self.kernel_cfg["radius"],
                           "kernel_kwargs": {"parameters": np.array(p, dtype=np.float64)}}

    def fns(self):
        return self.gen if self.family == "Lenia" else self.gen + self.per

    def set_params(self, p):
        p = np.asarray(p, dtype=np.float64)
        if self.family == "RxnDfn":
            self.rxn = [float(x) for x in p]
            return
        i = 0
        if self.family == "NCA":
            for k, v in enumerate(self.net):
                self.net[k] = f32(p[i:i + v.size]).reshape(v.shape)
                i += v.size
        else:
            for f in self.fns():
                f.set(p[i:i + f.count()])
                i += f.count()
            if self.family == "Lenia":
                return
        n = len(self.kernel_params())
        if n:
            self.set_kernel_params(p[i:i + n])

    def get_params(self):
        if self.family == "RxnDfn":
            return np.array(self.rxn)
        if self.family == "NCA":
            return np.concatenate([v.reshape(-1) for v in self.net] + [self.kernel_params()])
        parts = [f.get() for f in self.fns()]
        if self.family != "Lenia":
            parts.append(self.kernel_params())
        return np.concatenate(parts or [np.array([])])

    # what it does
    def masked(self, u):
        if u.shape[1] >= 4 and self.family != "RxnDfn":
            return u * (u[:, 3:4] > np.float32(self.threshold))
        return u

    def seen(self, u):
        """what both kernels report of a grid"""
        return (convolve(u, kernel(self.kernel_cfg), self.internal, self.mode),
                convolve(u, kernel(self.id_cfg), self.internal, self.mode))

    def growth(self, seen, shift=0.0):
        n, i = seen[0] + shift, seen[1] + shift
        if self.family == "RxnDfn":
            du, dv, f, k = self.rxn
            a, b = i[:, 0], i[:, 1]
            return np.stack([du * n[:, 0] / self.dx ** 2 - a * b * b + f * (1 - a),
                             dv * n[:, 1] / self.dx ** 2 + a * b * b - (f + k) * b], axis=1)
        if self.family == "NCA":
            return self.network(np.concatenate([i, n], axis=1))
        g = np.concatenate([f(n[:, k:k + 1]) for k, f in enumerate(self.gen)], axis=1)
        if self.family != "Lenia":
            p = np.concatenate([f(n[:, k:k + 1]) for k, f in enumerate(self.per)], axis=1)
            g = (1 - i) * g + i * p
        return np.repeat(g.sum(axis=1, keepdims=True), self.external, axis=1) / (self.external * self.internal)

    def network(self, x):
        w = list(self.net)

        def act(v):
            if self.act == "Gaussian":
                mu, sigma = w.pop(0), w.pop(0)
                return bell(v, mu.reshape(-1)[0], sigma.reshape(-1)[0])
            return ACT[self.act](v)
        mix = lambda m, v: np.einsum("oi,bihw->bohw", m.reshape(m.shape[0], m.shape[1]), v)
        x = act(mix(w.pop(0), x))
        x = act(mix(w.pop(0), x))
        return np.tanh(mix(w.pop(0), x))

    def bounds(self, make, u, half=False):
        """lowest and highest outcome of `make` over neighbourhoods a float32
        convolution may report for them, or such a one rounded to float16"""
        if half:
            outs = [make(s * 8e-5 * (1 + np.abs(u).max())) for s in range(-8, 9)]
            return outs[8], np.min(outs, axis=0), np.max(outs, axis=0)
        scale = 3e-7 if self.family == "RxnDfn" else 1e-6 * (1 + np.abs(u).max())
        outs = [make(s * scale) for s in (-4, -2, -1, 0, 1, 2, 4)]
        return outs[3], np.min(outs, axis=0), np.max(outs, axis=0)

    def step(self, u, dt=None, half=False):
        """(expected, lowest, highest) grid after one step of size dt"""
        dt = self.dt if dt is None else dt
        u = self.masked(u)
        s = self.seen(u)
        return self.bounds(lambda d: np.clip(u + dt * self.growth(s, d), 0, 1), u, half)

    def rate(self, u):
        """(neighbourhoods, growth) with the range of the growth"""
        u = self.masked(u)
        s = self.seen(u)
        return s[0], self.bounds(lambda d: self.growth(s, d), u)

    def meta_step(self, u, ddt=.25):
        """a step whose growth is itself what grows"""
        # what has grown so far: expected, lowest, highest
        d0 = self.dgrid if self.dgrid is not None and self.dgrid.shape[1:] == u.shape else np.zeros((3,) + u.shape)
        u = self.masked(u)
        s = self.seen(u)
        d = d0 + ddt * np.stack(self.bounds(lambda d: self.growth(s, d), u))
        e, lo, hi = np.clip(u + self.dt * d, 0, 1)
        return e, lo, hi, d
