"""Independent reference mathematics (plain loops over runs, written from the documentation)."""
import numpy as np


def gibbs(energy, alpha):
    """Normalised exp(-alpha * energy), one run."""
    e = np.asarray(energy, dtype=np.longdouble)
    a = np.longdouble(alpha)
    with np.errstate(all='ignore'):
        w = np.where(np.isposinf(e), -np.inf, -(a * (e - e.min())))
        w = np.exp(w - w.max())
    return (w / w.sum())


def mean_w(w, x):
    """sum_j w_j x_j for one run, x of shape (n, *d)."""
    w = np.asarray(w, dtype=np.longdouble).reshape((-1,) + (1,) * (x.ndim - 1))
    keep = (w > 0).reshape(-1)
    return np.asarray((w[keep] * x[keep].astype(np.longdouble)).sum(0), dtype=float)


def consensus(energy, x, alpha):
    return mean_w(gibbs(energy, alpha), x)


def cov_sqrt(drift, w):
    """Symmetric square root of sum_j w_j d_j d_j^T (one run, drift (n, d))."""
    C = np.einsum('j,ji,jk->ik', np.asarray(w, float), drift, drift)
    e, V = np.linalg.eigh((C + C.T) / 2)
    return (V * np.sqrt(np.maximum(e, 0))) @ V.T


def noise(kind, drift, z, dt, alpha=None, w=None, mode='sampling'):
    """Noise of one run. drift, z: (n, *d)."""
    if kind == 'constant':
        return np.sqrt(dt) * z
    if kind == 'isotropic':
        nrm = np.sqrt((drift.reshape(len(drift), -1) ** 2).sum(-1)).reshape((-1,) + (1,) * (drift.ndim - 1))
        return np.sqrt(dt) * nrm * z
    if kind == 'anisotropic':
        return np.sqrt(dt) * drift * z
    lam = 1.0 / (1.0 + alpha) if mode == 'sampling' else 1.0
    R = cov_sqrt(drift, w)
    return np.sqrt(2 * dt / lam) * (z @ R.T)


def project_simplex_ok(x, tol=1e-9):
    return np.all(x >= -tol) and np.allclose(x.sum(-1), 1, atol=tol)


def neg_log(kernel, kappa, x, y):
    """-log k(x, y) of the polar kernels for two points."""
    r = float(np.sqrt(((x - y) ** 2).sum())) if kappa != np.inf else 0.0
    if kernel == 'Gaussian':
        return r ** 2 / (2 * kappa ** 2)
    if kernel == 'Laplace':
        return r / kappa
    if kernel == 'InverseQuadratic':
        return np.log1p((r / kappa) ** 2)
    if kernel == 'Constant':
        return 0.0 if r < kappa else (1.0 if r == kappa else np.inf)
    raise KeyError(kernel)


# ---- constraints (plain dictionaries as given by the user) -------------------------------------

def con_value(c, x):
    """Value of one constraint at points x[..., d]."""
    if c['name'] == 'sphere':
        return (x ** 2).sum(-1) - c.get('r', 1.0) ** 2
    if c['name'] == 'plane':
        a = np.asarray(c['a'], float)
        return ((a * x).sum(-1) - c['b']) / np.sqrt((a ** 2).sum())
    return np.einsum('...i,ij,...j->...', x, c['A'], x) + (x * c['b']).sum(-1) + c['c']


def con_grad(c, x):
    if c['name'] == 'sphere':
        return 2 * x
    if c['name'] == 'plane':
        a = np.asarray(c['a'], float)
        return np.broadcast_to(a / np.sqrt((a ** 2).sum()), x.shape).copy()
    return np.einsum('ij,...j->...i', c['A'] + c['A'].T, x) + c['b']


def con_hess(c, x):
    d = x.shape[-1]
    if c['name'] == 'sphere':
        H = 2 * np.eye(d)
    elif c['name'] == 'plane':
        H = np.zeros((d, d))
    else:
        H = c['A'] + c['A'].T
    return np.broadcast_to(H, x.shape[:-1] + (d, d)).copy()


def sq_grad(cs, x):
    return sum((2 * con_value(c, x)[..., None] * con_grad(c, x) for c in cs), np.zeros_like(x))


def sq_hess(cs, x):
    out = np.zeros(x.shape + (x.shape[-1],))
    for c in cs:
        g = con_grad(c, x)
        out += 2 * (g[..., :, None] * g[..., None, :] + con_value(c, x)[..., None, None] * con_hess(c, x))
    return out


def root_slack(s, x, alpha, f, sigma=None):
    """Rounding of the covariance noise: the root of a (nearly) singular covariance amplifies rounding."""
    if s.get('noise') not in ('covariance', 'sampling'):
        return 0.0
    f = np.abs(f[np.isfinite(f)]).max(initial=0)
    res = np.sqrt(1e-15 * (1 + alpha * f))
    return float(20 * res * (1 + np.abs(x).max()) * np.sqrt(2 * s['dt'] * (1 + alpha)) * (s['sigma'] if sigma is None else sigma))
