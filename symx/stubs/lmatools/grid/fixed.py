"""Stand-in for lmatools.grid.fixed: the GOES-R fixed grid definitions."""
from math import atan2, cos, hypot, pi, sin, sqrt

goesr_nadir_lon = {'east': -75.0, 'west': -137.0, 'test': -89.5}

goesr_full = {'spanEW': 0.303744, 'spanNS': 0.303744}
goesr_conus = {'spanEW': 0.14, 'spanNS': 0.084}
goesr_meso = {'spanEW': 0.028, 'spanNS': 0.028}
goesr_resolutions = {'0.5km': 14e-6, '1.0km': 28e-6, '2.0km': 56e-6, '4.0km': 112e-6, '8.0km': 224e-6,
                     '10.0km': 280e-6}

RE, RP, HGT = 6378137.0, 6356752.31414, 35786023.0


class GeostationaryFixedGridSystem(object):
    """Scan angles (sweep axis x) to and from earth-centred coordinates."""

    def __init__(self, subsat_lon=0.0):
        self.subsat_lon = subsat_lon

    def _one(self, x, y):
        H = HGT + RE
        a = sin(x) ** 2 + cos(x) ** 2 * (cos(y) ** 2 + (RE / RP) ** 2 * sin(y) ** 2)
        b = -2 * H * cos(x) * cos(y)
        d = sqrt(b * b - 4 * a * (H * H - RE * RE))
        r = (-b - d) / (2 * a)
        sx, sy, sz = r * cos(x) * cos(y), r * sin(x), r * cos(x) * sin(y)
        lam = self.subsat_lon * pi / 180
        X, Y = H - sx, sy
        return X * cos(lam) - Y * sin(lam), X * sin(lam) + Y * cos(lam), sz

    def toECEF(self, x, y, z):
        return _vec(self._one, x, y)

    def fromECEF(self, X, Y, Z):
        def one(p, q, s):
            lam = self.subsat_lon * pi / 180
            u, v = p * cos(lam) + q * sin(lam), -p * sin(lam) + q * cos(lam)
            H = HGT + RE
            return atan2(v, hypot(H - u, s)), atan2(s, H - u), 0.0
        return _vec(one, X, Y, Z)


class GeographicSystem(object):
    def _from(self, X, Y, Z):
        lon = atan2(Y, X)
        lat = atan2(Z * RE ** 2, hypot(X, Y) * RP ** 2)
        return lon * 180 / pi, lat * 180 / pi, 0.0

    def fromECEF(self, X, Y, Z):
        return _vec(self._from, X, Y, Z)

    def _to(self, lon, lat, alt):
        e2 = 1 - (RP / RE) ** 2
        lam, phi = lon * pi / 180, lat * pi / 180
        n = RE / sqrt(1 - e2 * sin(phi) ** 2)
        return ((n + alt) * cos(phi) * cos(lam), (n + alt) * cos(phi) * sin(lam), (n * (1 - e2) + alt) * sin(phi))

    def toECEF(self, lon, lat, alt):
        return _vec(self._to, lon, lat, alt)


def _vec(f, *args):
    import numpy as np
    if not any(isinstance(a, np.ndarray) and a.ndim for a in args):
        return f(*args)
    args = np.broadcast_arrays(*args)
    out = [f(*v) for v in zip(*[a.reshape(-1).tolist() for a in args])]
    return tuple(np.array([o[k] for o in out]).reshape(args[0].shape) for k in range(3))


def get_GOESR_coordsys(sat_lon_nadir=-75.0):
    return GeostationaryFixedGridSystem(sat_lon_nadir), GeographicSystem()


def get_GOESR_grid(position='east', view='full', resolution='2.0km'):
    """Definition of a sector: spacing and spans in radians, centre, pixels."""
    v = dict({'full': goesr_full, 'conus': goesr_conus, 'meso': goesr_meso}[view])
    v['resolution'] = goesr_resolutions[resolution]
    v['nadir_lon'] = goesr_nadir_lon[position]
    v['pixelsEW'] = int(round(v['spanEW'] / v['resolution']))
    v['pixelsNS'] = int(round(v['spanNS'] / v['resolution']))
    if view == 'full':
        v['centerEW'], v['centerNS'] = 0.0, 0.0
    elif view == 'conus':
        v['centerEW'], v['centerNS'] = {'east': -0.031360, 'west': 0.0, 'test': -0.005040}[position], \
            {'east': 0.086240, 'west': 0.086240, 'test': 0.084560}[position]
    return v
