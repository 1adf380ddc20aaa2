"""Reference images: direct float64 sums over particles, periodic images and pixels."""
import itertools

import numpy as np

G2, C2 = 1.897367, 2.22817109  # projected kernel: support over smoothing length, normalisation
G3, C3 = 1.936492, 21.0 / (2.0 * np.pi)


def kernel(r, H, dim):
    q = r / H
    return np.where(q < 1, (1 - np.minimum(q, 1)) ** 4 * (1 + 4 * q), 0.0) * ((C2 if dim == 2 else C3) / H**dim)


def shifts(box):
    return [0.0] if box == 0 else [k * box for k in range(-3, int(np.ceil(1 / box)) + 4)]


def places(pos, boxes):
    """All periodic copies of one position (those of interest lie near the unit square or cube)."""
    return np.array(list(itertools.product(*[[p + s for s in shifts(b)] for p, b in zip(pos, boxes)])))


def cell(v, res):
    return int(np.floor(v * res))


def near_edge(p, res, tol=1e-9):
    """Float rounding could put this position in either of two cells."""
    f = np.asarray(p) * res
    d = np.abs(f - np.round(f))
    return bool(np.any((d < tol) & (d > 0)))


def grid_add(image, centres, p, H, m, dim):
    """Adds m * W at the pixel centres to image (centres: one array of coordinates per axis)."""
    r2 = 0.0
    for ax, (c, x) in enumerate(zip(centres, p)):
        sh = [1] * image.ndim
        if ax < image.ndim:
            sh[ax] = len(c)
            r2 = r2 + ((c - x) ** 2).reshape(sh)
        else:
            r2 = r2 + (c - x) ** 2
    image += m * kernel(np.sqrt(r2), H, dim)


def project(x, y, m, h, res, bx, by, backend):
    """Returns (image, scale of one particle's largest contribution summed)."""
    im = np.zeros((res, res))
    c = (np.arange(res) + 0.5) / res
    tol = 0.0
    for xi, yi, mi, hi in zip(x, y, m, h):
        H = G2 * hi
        for p in places((xi, yi), (bx, by)):
            cx, cy = cell(p[0], res), cell(p[1], res)
            inside = 0 <= cx < res and 0 <= cy < res
            if backend == "histogram" or (backend in ("fast", "renormalised") and H * res < 1):
                if inside:
                    im[cx, cy] += mi * res**2
                    tol += abs(mi) * res**2
            elif max(-p[0], p[0] - 1, -p[1], p[1] - 1) > H + 1.0 / res:
                continue
            elif backend == "renormalised":
                n = int(np.ceil(H * res)) + 2
                k = (np.arange(-n, n + 1) + 0.5)
                full = kernel(np.hypot(((cx + k) / res - p[0])[:, None], ((cy + k) / res - p[1])[None, :]), H, 2).sum()
                one = np.zeros((res, res))
                grid_add(one, (c, c), p, H, mi, 2)
                im += one * res**2 / full
                tol += abs(mi) * kernel(0.0, H, 2) * res**2 / full
            elif backend in ("fast", "reference"):
                grid_add(im, (c, c), p, H, mi, 2)
                tol += abs(mi) * kernel(0.0, H, 2)
            else:
                im += mi * pixel_integral(p, H, res) * res**2
                tol += abs(mi) * res**2
    return im, tol


def pixel_integral(p, H, res):
    """Fraction of the kernel that falls into each pixel (midpoint rule on a grid tied to the kernel)."""
    n = 96
    s = ((np.arange(2 * n) + 0.5) / n - 1) * H
    w = kernel(np.hypot(s[:, None], s[None, :]), H, 2)
    w /= w.sum()
    ix = np.floor((p[0] + s) * res).astype(int)
    iy = np.floor((p[1] + s) * res).astype(int)
    # sum rows and columns falling in the same pixel
    ux, kx = np.unique(ix, return_inverse=True)
    uy, ky = np.unique(iy, return_inverse=True)
    a = np.zeros((len(ux), w.shape[1]))
    np.add.at(a, kx, w)
    b = np.zeros((len(ux), len(uy)))
    np.add.at(b.T, ky, a.T)
    im = np.zeros((res, res))
    okx, oky = (ux >= 0) & (ux < res), (uy >= 0) & (uy < res)
    im[np.ix_(ux[okx], uy[oky])] = b[np.ix_(okx, oky)]
    return im


def slice_(x, y, z, m, h, zs, xres, yres, bx, by, bz):
    res = max(xres, yres)
    im = np.zeros((xres, yres))
    cx, cy = (np.arange(xres) + 0.5) / res, (np.arange(yres) + 0.5) / res
    tol = 0.0
    for xi, yi, zi, mi, hi in zip(x, y, z, m, h):
        H = G3 * hi
        for p in places((xi, yi, zi), (bx, by, bz)):
            if max(-p[0], p[0] - 1, -p[1], p[1] - 1, abs(p[2] - zs)) > H:
                continue
            grid_add(im, (cx, cy, zs), p, H, mi, 3)
            tol += abs(mi) * kernel(0.0, H, 3) * (1 + 0.008 / H)  # pixel positions are float32
    return im, tol


def voxels(x, y, z, m, h, res, bx, by, bz, rz=None):
    """rz: number of layers along z if they are not cubes."""
    rz = rz or res
    dims = (res, res, rz)
    im = np.zeros(dims)
    c, cz = (np.arange(res) + 0.5) / res, (np.arange(rz) + 0.5) / rz
    tol = 0.0
    for xi, yi, zi, mi, hi in zip(x, y, z, m, h):
        H = G3 * hi
        for p in places((xi, yi, zi), (bx, by, bz)):
            if max(np.max(-p), np.max(p - 1)) > H:
                continue
            if H * min(res, rz) < 0.5:
                i = tuple(cell(v, r) for v, r in zip(p, dims))
                if all(0 <= k < r for k, r in zip(i, dims)):
                    im[i] += mi * res**2 * rz
                    tol += abs(mi) * res**2 * rz
            else:
                grid_add(im, (c, c, cz), p, H, mi, 3)
                tol += abs(mi) * kernel(0.0, H, 3) * (1 + 0.008 / H)
    return im, tol


def nearest(x, y, z, zs, xres, yres, boxes):
    """Distances of every pixel centre to every particle: array (xres, yres, n)."""
    res = max(xres, yres)
    c = ((np.arange(xres) + 0.5) / res, (np.arange(yres) + 0.5) / res, np.array([zs]))
    d2 = 0.0
    for k, (p, q, b) in enumerate(zip((x, y, z), c, boxes)):
        d = q[:, None] - np.asarray(p)[None, :]
        if b:
            d = d - b * np.round(d / b)
        sh = [1, 1, 1, d.shape[1]]
        sh[k] = d.shape[0]
        d2 = d2 + (d**2).reshape(sh)
    return np.sqrt(d2[:, :, 0, :])
