"""Builds Level-2 style lightning datasets (the layout the reader expects)."""
import numpy as np
import xarray as xr

FL, GR, EV = 'number_of_flashes', 'number_of_groups', 'number_of_events'

E_SCALE, E_OFF = 1.5259e-15, 2.8515e-16
A_SCALE, A_OFF, A_FILL = 152601.9, 0.0, 65535


def enc(ds, name, **kw):
    ds[name].encoding.update(kw)


def dataset(c, f, g, e, gp, ep, lon=None, lat=None, energy=None, area=None,
            units=('J', 'm2'), time='2018-07-02T04:32:00', nadir=-75.0,
            gfto=False, attrs=None):
    """f, g, e: id lists; gp, ep: parent references.  Optional dicts give
    per-level values ('flash', 'group', 'event'); anything not given is a
    fixed concrete value."""
    nf, ng, ne = len(f), len(g), len(e)
    t0 = np.datetime64(time, 'ns')

    def times(n, step):
        return t0 + (np.arange(n) * step).astype('m8[ms]').astype('m8[ns]')

    lon = dict(lon or {})
    lat = dict(lat or {})
    energy = dict(energy or {})
    area = dict(area or {})
    n = dict(flash=nf, group=ng, event=ne)
    dim = dict(flash=FL, group=GR, event=EV)
    v = {}
    v['flash_id'] = ((FL,), c.iarray(f))
    v['group_id'] = ((GR,), c.iarray(g))
    v['event_id'] = ((EV,), c.iarray(e))
    v['group_parent_flash_id'] = ((GR,), c.iarray(gp))
    v['event_parent_group_id'] = ((EV,), c.iarray(ep))
    for lv in ('flash', 'group', 'event'):
        k = n[lv]
        lo = lon.get(lv, [nadir + 0.5 * i for i in range(k)])
        la = lat.get(lv, [10.0 + 0.25 * i for i in range(k)])
        en = energy.get(lv, [(3 + i) * 1e-14 for i in range(k)])
        v[lv + '_lon'] = ((dim[lv],), c.farray(lo))
        v[lv + '_lat'] = ((dim[lv],), c.farray(la))
        v[lv + '_energy'] = ((dim[lv],), c.farray(en), {'units': units[0]})
        if lv != 'event':
            ar = area.get(lv, [(1 + i) * 2.0e8 for i in range(k)])
            v[lv + '_area'] = ((dim[lv],), c.farray(ar), {'units': units[1]})
    v['event_time_offset'] = ((EV,), times(ne, 2))
    v['group_time_offset'] = ((GR,), times(ng, 3))
    v['flash_time_offset_of_first_event'] = ((FL,), times(nf, 5))
    v['flash_time_offset_of_last_event'] = ((FL,), times(nf, 5) + np.timedelta64(7, 'ms'))
    if gfto:
        v['group_frame_time_offset'] = ((GR,), times(ng, 3))
    v['product_time'] = ((), t0)
    v['product_time_bounds'] = (('number_of_time_bounds',),
                                np.array([t0, t0 + np.timedelta64(20, 's')]))
    v['lon_field_of_view'] = ((), nadir)
    ds = xr.Dataset(v)
    ds = ds.set_coords([x for x in ds.data_vars if x.endswith('_lat') or x.endswith('_lon')
                        or 'time' in x or x.endswith('_id')])
    for lv in ('flash', 'group', 'event'):
        enc(ds, lv + '_energy', scale_factor=E_SCALE, add_offset=E_OFF)
    for lv in ('flash', 'group'):
        enc(ds, lv + '_area', scale_factor=A_SCALE, add_offset=A_OFF, _FillValue=A_FILL)
    ds.attrs.update(dict(platform_ID='G16', orbital_slot='GOES-East', instrument_ID='GLM-1',
                         dataset_name='OR_GLM-L2-LCFA_G16_s0_e0_c0.nc'))
    if attrs:
        ds.attrs.update(attrs)
    return ds


def load(c, ds, **kw):
    kw.setdefault('ellipse_rev', 0)
    return c.mod('glmtools.io.glm').GLMDataset(ds, **kw)
