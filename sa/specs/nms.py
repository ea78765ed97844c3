"""Reference definition of the suppression pipeline (Dollar's edge toolbox)."""
import numpy as np
from scipy import signal
from pyEdgeEval._lib import nms


def conv_tri(image, r, s):
    if image.size == 0 or (r == 0 and s == 1):
        return image
    if r <= 1:
        p = 12 / r / (r + 2) - 2
        f = np.array([[1, p, 1]]) / (2 + p)
        r = 1
    else:
        f = np.array([list(range(1, r + 1)) + [r + 1] + list(range(r, 0, -1))]) / (r + 1) ** 2
    f = f.astype(image.dtype)
    image = np.pad(image, ((r, r), (r, r)), mode="symmetric")
    image = signal.convolve2d(signal.convolve2d(image, f, "valid"), f.T, "valid")
    if s > 1:
        t = int(np.floor(s / 2) + 1)
        image = image[t - 1:image.shape[0] - (s - t) + 1:s, t - 1:image.shape[1] - (s - t) + 1:s]
    return image


def grad2(image):
    assert image.ndim == 2
    oy, ox = np.gradient(image)
    return ox, oy


def fast_nms(img, r, s, m, half_prec, return_as_uint8):
    if img.dtype == np.uint8:
        img = (img / 255.0).astype(np.float64)
    assert img.dtype == np.float64 or img.dtype == np.float32
    edge = conv_tri(img, 1, 1)
    if half_prec:
        edge = np.float32(edge)
    ox, oy = grad2(conv_tri(edge, 4, 1))
    oxx, _ = grad2(ox)
    oxy, oyy = grad2(oy)
    oxx = np.where(oxx == 0, 1e-5, oxx)
    val = oyy * np.sign(-oxy) / oxx
    ori = np.mod(np.arctan(val), np.pi)
    out = nms(edge, ori, r=r, s=s, m=m)
    if return_as_uint8:
        out = np.round(np.clip(out, 0, 1) * 255).astype(np.uint8)
    return out
