"""shared references for the multivalid methods (not a suite)"""
import numpy as np

F = np.float32
EDGE = 2e-6


def cell(values, v, tau, n):
    """membership in the bucket (tau: 0 '=', 1 '>=', 2 '<=') and whether it is decided by rounding"""
    h = 0.5 / n
    d = values.astype(np.float64) - float(v)
    if tau == 0:
        return np.abs(d) < h, np.abs(np.abs(d) - h) < EDGE
    if tau == 1:
        return d + h >= 0, np.abs(d + h) < EDGE
    return d - h <= 0, np.abs(d - h) < EDGE


def replay(patches, groups, values, n, eta, kind="additive", top_label=False):
    """numpy replay of recorded patches; returns (values, doubtful rows)"""
    x = np.array(values, dtype=np.float64)
    doubt = np.zeros(len(x), bool)
    for tau, g, v, c, patch in patches:
        tau, g, c, v, patch = int(tau), int(g), int(c), float(v), float(patch)
        col = x if x.ndim == 1 else x[:, c]
        b, near = cell(col, v, tau, n)
        near &= groups[:, g]
        b = b & groups[:, g]
        if top_label:
            s = np.sort(x, 1)
            near |= (s[:, -1] - s[:, -2]) < EDGE
            b &= x.argmax(1) == c
        doubt |= near
        new = np.clip(col + eta * patch if kind == "additive" else col * (1 - eta * (1 - patch)), 0, 1)
        new = np.where(b, new, col)
        if x.ndim == 1:
            x = new
        else:
            x[:, c] = new
    return x, doubt
