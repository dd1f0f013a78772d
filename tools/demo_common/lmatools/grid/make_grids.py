"""Stand-in for lmatools.grid.make_grids.FlashGridder: time and space edges."""
from datetime import datetime, timedelta

import numpy as np

from lmatools.grid.fixed import get_GOESR_coordsys


class FlashGridder(object):
    def __init__(self, start_time, end_time, do_3d=True, frame_interval=120.0, dx=4.0e3, dy=4.0e3, dz=1.0e3,
                 base_date=None, x_bnd=(-100e3, 100e3), y_bnd=(-100e3, 100e3), z_bnd=(0e3, 20e3),
                 ctr_lat=0.0, ctr_lon=-75.0, ctr_alt=0.0, proj_name='geos', proj_datum='WGS84',
                 proj_ellipse='WGS84', pixel_coords=None, flash_count_logfile=None, energy_grids=None,
                 event_grid_area_fraction_key=None, spatial_scale_factor=1.0 / 1000.0):
        self.energy_grids = energy_grids if energy_grids is not None else ('specific_energy', 'total_energy')
        self.spatial_scale_factor = spatial_scale_factor
        self.event_grid_area_fraction_key = event_grid_area_fraction_key
        self.flash_count_logfile = flash_count_logfile
        self.proj_name = proj_name
        self.frame_interval = frame_interval
        self.dx, self.dy, self.dz = dx, dy, dz
        self.start_time, self.end_time = start_time, end_time
        n = int(round((end_time - start_time).total_seconds() / frame_interval))
        self.t_edges = [start_time + timedelta(0, frame_interval) * k for k in range(n + 1)]
        self.t_ref = datetime(start_time.year, start_time.month, start_time.day)
        self.t_edges_seconds = [(t - self.t_ref).total_seconds() for t in self.t_edges]
        self.n_frames = n
        self.xedge = self._edges(x_bnd, dx)
        self.yedge = self._edges(y_bnd, dy)
        self.zedge = self._edges(z_bnd, dz)
        self.mapProj, self.geoProj = get_GOESR_coordsys(ctr_lon)
        self.pipeline_setup()
        self.output_setup()

    def _edges(self, bnd, d):
        return np.arange(bnd[0], bnd[1] + d, d)


# named by the command-line script; replaced by the scenarios that need them
def write_cf_netcdf_latlon(*args, **kwargs):
    raise NotImplementedError


def write_cf_netcdf_noproj(*args, **kwargs):
    raise NotImplementedError


def write_cf_netcdf_fixedgrid(*args, **kwargs):
    raise NotImplementedError


def grid_h5flashfiles(*args, **kwargs):
    raise NotImplementedError


def dlonlat_at_grid_center(ctr_lat, ctr_lon, dx=4.0e3, dy=4.0e3, x_bnd=(-100e3, 100e3), y_bnd=(-100e3, 100e3),
                           proj_datum='WGS84', proj_ellipse='WGS84'):
    raise NotImplementedError
