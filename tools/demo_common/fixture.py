"""Small lightning datasets for the demonstrations."""
import numpy as np
import xarray as xr

FL, GR, EV = 'number_of_flashes', 'number_of_groups', 'number_of_events'


def glm(f, g, e, gp, ep, **over):
    n = dict(flash=len(f), group=len(g), event=len(e))
    dim = dict(flash=FL, group=GR, event=EV)
    t0 = np.datetime64(over.get('time', '2018-07-02T04:32:00'), 'ns')
    v = {'flash_id': (FL, np.array(f)), 'group_id': (GR, np.array(g)), 'event_id': (EV, np.array(e)),
         'group_parent_flash_id': (GR, np.array(gp)), 'event_parent_group_id': (EV, np.array(ep))}
    for lv in n:
        k = n[lv]
        v[lv + '_lon'] = (dim[lv], np.asarray(over.get(lv + '_lon', -75.0 + 0.5 * np.arange(k)), 'f8'))
        v[lv + '_lat'] = (dim[lv], np.asarray(over.get(lv + '_lat', 10.0 + 0.25 * np.arange(k)), 'f8'))
        v[lv + '_energy'] = (dim[lv], np.asarray(over.get(lv + '_energy', (3 + np.arange(k)) * 1e-14), 'f8'),
                             {'units': 'J'})
        if lv != 'event':
            v[lv + '_area'] = (dim[lv], np.asarray(over.get(lv + '_area', (1 + np.arange(k)) * 2e8), 'f8'),
                               {'units': over.get('area_units', 'm2')})

    def times(k, step):
        return t0 + (np.arange(k) * step).astype('m8[ms]').astype('m8[ns]')
    v['event_time_offset'] = (EV, times(len(e), 2))
    v['group_time_offset'] = (GR, times(len(g), 3))
    v['flash_time_offset_of_first_event'] = (FL, times(len(f), 5))
    v['flash_time_offset_of_last_event'] = (FL, times(len(f), 5) + np.timedelta64(7, 'ms'))
    v['product_time'] = ((), t0)
    v['product_time_bounds'] = ('number_of_time_bounds', np.array([t0, t0 + np.timedelta64(20, 's')]))
    v['lon_field_of_view'] = ((), over.get('nadir', -75.0))
    ds = xr.Dataset(v)
    ds = ds.set_coords([x for x in ds.data_vars if x.endswith(('_lat', '_lon', '_id')) or 'time' in x])
    for lv in n:
        ds[lv + '_energy'].encoding.update(scale_factor=1.5259e-15, add_offset=2.8515e-16)
    for lv in ('flash', 'group'):
        ds[lv + '_area'].encoding.update(scale_factor=152601.9, add_offset=0.0, _FillValue=65535)
    ds.attrs.update(dict(platform_ID='G16', orbital_slot='GOES-East', instrument_ID='GLM-1',
                         dataset_name='OR_GLM-L2-LCFA_G16_s0_e0_c0.nc'))
    return ds
