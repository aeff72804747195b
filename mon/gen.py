"""Seeded workload generators shared by the scenarios."""
import numpy as np

LARGE = False       # scenarios of the module `large` raise it: the same workloads with many or big items


def big(usual, large):
    return large if LARGE else usual


NPTS = (1, 2, 3, 5, 7, 8, 16, 31, 33, 64, 65, 100, 128, 257, 1000, 1025)


def star(rng, n, lo=.3, hi=1.5):
    """Simple star-shaped polygon, counter clockwise."""
    while True:
        ang = np.sort(rng.uniform(0, 2*np.pi, n))
        gaps = np.diff(np.r_[ang, ang[0]+2*np.pi])
        if gaps.max() < np.pi*.95 and gaps.min() > .02/n:
            break
        ang = (np.arange(n)+rng.uniform(.05, .9, n))*2*np.pi/n
        gaps = np.diff(np.r_[ang, ang[0]+2*np.pi])
        if gaps.max() < np.pi*.98:
            break
    r = rng.uniform(lo, hi, n)
    return np.c_[np.cos(ang), np.sin(ang)]*r[:, None]


def rect(x0, y0, w, h):
    return np.array([[x0, y0], [x0+w, y0], [x0+w, y0+h], [x0, y0+h]], float)


def lshape(rng):
    a, b = rng.uniform(1., 3., 2)
    c, d = a*rng.uniform(.2, .8), b*rng.uniform(.2, .8)
    return np.array([[0, 0], [a, 0], [a, d], [c, d], [c, b], [0, b]])


def comb(rng, teeth=None):
    k = teeth or int(rng.integers(*big((2, 6), (10, 25))))
    top = []
    for i in range(k):
        top += [[2*i, 2], [2*i, 3], [2*i+1, 3], [2*i+1, 2]]
    return np.array([[0, 0], [2*k-1, 0], [2*k-1, 2]] + top[::-1][1:-1] + [[0, 2.]])[:, :]*.5


def polygon(rng, nmax=12):
    """One simple polygon, CCW, with a tag."""
    if LARGE and nmax >= 12:
        nmax = int(rng.choice([12, 30, 60, 110]))
    k = int(rng.integers(*big((0, 9), (3, 9))))
    if k == 0:
        p, t = rect(rng.uniform(-1, 1), rng.uniform(-1, 1), rng.uniform(.2, 3), rng.uniform(.2, 3)), "rect"
    elif k == 1:
        p, t = rect(*rng.integers(-3, 3, 2), *rng.integers(1, 4, 2)), "intrect"
    elif k == 2:
        p, t = lshape(rng), "lshape"
    elif k == 3:
        p, t = comb(rng), "comb"
    elif k == 4:
        n = int(rng.integers(3, nmax+1))
        a = 2*np.pi*np.arange(n)/n+rng.uniform(0, 1)
        p, t = np.c_[np.cos(a), np.sin(a)]*rng.uniform(.3, 2), "regular%d" % n
    elif k == 5:
        p, t = rng.uniform(-1, 1, (1, 2)) + np.array([[0, 0], [1, 0], [0, 1.]])*rng.uniform(.3, 3), "triangle"
    else:
        n = int(rng.integers(3, nmax+1))
        p, t = star(rng, n), "star%d" % n
    if rng.random() < .25:      # redundant vertices
        i = int(rng.integers(len(p)))
        q = p[i] if rng.random() < .4 else (p[i]+p[(i+1) % len(p)])/2
        p = np.insert(p, i+1, q, 0)
        t += "+redundant"
    if rng.random() < .5:
        p = np.roll(p, int(rng.integers(len(p))), 0)
    return p, t


def paths(rng, nmax=4, many=False):
    """Paths of one electrode: several polygons, holes, either orientation."""
    n = int(rng.integers(1, nmax+1))
    few = 12
    if LARGE and rng.random() < .5:
        n, few = int(rng.choice([7, 12, 20])), 6
    out, tag = [], []
    for i in range(n):
        p, t = polygon(rng, few)
        off = rng.uniform(-4, 4, 2) if rng.random() < .8 else rng.integers(-4, 4, 2)
        out.append(p+off)
        tag.append(t)
        if rng.random() < .2:       # a hole: scaled, clockwise copy
            c = p.mean(0)
            out.append(((p-c)*.3+c+off)[::-1])
            tag.append("hole")
        elif rng.random() < .15:
            out[-1] = out[-1][::-1]
            tag[-1] += "-cw"
    return out, tag


def points(rng, n, ps, zscale=1., negz=True):
    """Evaluation points with z != 0: generic and hostile positions around paths `ps`."""
    allv = np.concatenate(ps) if len(ps) else np.zeros((1, 2))
    lo, hi = allv.min(0), allv.max(0)
    size = max(float((hi-lo).max()), 1e-3)
    c = (lo+hi)/2
    x = np.empty((n, 3))
    kind = []
    for i in range(n):
        k = int(rng.integers(10))
        p = ps[int(rng.integers(len(ps)))] if len(ps) else allv
        j = int(rng.integers(len(p)))
        a, b = p[j], p[(j+1) % len(p)]
        z = size*float(np.exp(rng.uniform(np.log(.05), np.log(2.))))*zscale
        if k <= 3:
            xy = c+rng.normal(size=2)*size*.7
            kn = "generic"
        elif k == 4:
            xy, kn = a.copy(), "vertex"
        elif k == 5:
            xy, kn = a+(b-a)*rng.choice([.5, .25, rng.random()]), "edge"
        elif k == 6:
            xy, kn = a+(b-a)*rng.choice([2., -1., 1.5]), "edge-extension"
        elif k == 7:
            xy, kn = p.mean(0), "centroid"
        elif k == 8:
            r = size*np.exp(rng.uniform(np.log(2.), np.log(30.)))
            t = rng.uniform(0, 2*np.pi)
            xy, kn = c+r*np.array([np.cos(t), np.sin(t)]), "far"
            z = r*rng.uniform(.2, 2)
        else:
            xy, kn = np.round(c+rng.normal(size=2)*size), "integer"
            z = max(1., np.round(z))
        if negz and rng.random() < .15:
            z, kn = -z, kn+"-z"
        x[i] = xy[0], xy[1], z
        kind.append(kn)
    return x, kind


def voltage(rng):
    k = int(rng.integers(8))
    if k == 0:
        return 1.
    if k == 1:
        return float(rng.integers(-5, 6))
    if k == 2:
        return -1.
    if k == 3:
        return float(10**rng.uniform(-12, -6))*float(rng.choice([-1, 1]))
    if k == 4:
        return float(10**rng.uniform(2, 6))
    return float(rng.normal())


def rotation(rng):
    """Random proper rotation matrix."""
    q = rng.normal(size=4)
    q /= np.linalg.norm(q)
    w, x, y, z = q
    return np.array([[1-2*(y*y+z*z), 2*(x*y-z*w), 2*(x*z+y*w)],
                     [2*(x*y+z*w), 1-2*(x*x+z*z), 2*(y*z-x*w)],
                     [2*(x*z-y*w), 2*(y*z+x*w), 1-2*(x*x+y*y)]])
