"""Particle clouds used as inputs."""
import numpy as np


def rotation(rng):
    a = rng.normal(size=(3, 3))
    q, r = np.linalg.qr(a)
    q = q * np.sign(np.diag(r))
    if np.linalg.det(q) < 0:
        q[:, 0] = -q[:, 0]
    return q


def ellipsoid(rng, n, axes=(1.0, 0.7, 0.5), rot=None, conc=0.6):
    """n points filling an ellipsoid, denser inside for conc < 1 (r ~ u^conc)."""
    x = rng.normal(size=(n, 3))
    x /= np.linalg.norm(x, axis=1)[:, None]
    x *= (rng.uniform(size=n) ** conc)[:, None]
    x = x * np.asarray(axes)
    if rot is not None:
        x = x @ rot.T
    return x


def symmetric(rng, n8, axes=(1.0, 0.7, 0.5), rot=None, conc=0.6):
    """8*n8 points symmetric under reflection in the principal planes."""
    x = np.abs(ellipsoid(rng, n8, axes, None, conc)) + 1e-3
    s = np.array([[a, b, c] for a in (1, -1) for b in (1, -1) for c in (1, -1)])
    x = (x[:, None, :] * s[None, :, :]).reshape(-1, 3)
    if rot is not None:
        x = x @ rot.T
    return x
