"""Stand-in for lmatools.grid.density_to_files: the stages of the gridding
pipeline.  Points are binned with half-open bins except for the last one,
which includes its upper edge (the behaviour of numpy.histogramdd)."""
import numpy as np

from lmatools.stream.subset import coroutine


def _bin(value, edges):
    n = len(edges) - 1
    if value < edges[0] or value > edges[n]:
        return None
    for i in range(n - 1):
        if value < edges[i + 1]:
            return i
    return n - 1


def _accumulate(grid, xedge, yedge, x, y, weights):
    for k in range(len(x)):
        i, j = _bin(x[k], xedge), _bin(y[k], yedge)
        if i is not None and j is not None:
            grid[i, j] += 1 if weights is None else weights[k]


@coroutine
def accumulate_points_on_grid(grid, xedge, yedge, out=None, label='', grid_frac_weights=False):
    assert xedge.shape[0] == grid.shape[0] + 1
    assert yedge.shape[0] == grid.shape[1] + 1
    while True:
        x, y, weights = (yield)
        _accumulate(grid, xedge, yedge, x, y, weights if grid_frac_weights else None)


def accumulate_points_on_grid_sdev(*args, **kwargs):
    raise NotImplementedError


@coroutine
def accumulate_energy_on_grid(grid, xedge, yedge, out=None, label='', grid_frac_weights=False):
    while True:
        x, y, weights = (yield)
        _accumulate(grid, xedge, yedge, x, y, weights)


def accumulate_minimum_on_grid(*args, **kwargs):
    raise NotImplementedError


@coroutine
def point_density(target, weight_key=None, weight_flashes=True):
    while True:
        events, flashes, x, y, z = (yield)
        if len(x) > 0:
            weights = None
            if weight_key is not None:
                weights = flashes[weight_key] if weight_flashes else events[weight_key]
            target.send((x, y, weights))


@coroutine
def extent_density(x0, y0, dx, dy, target, flash_id_key='flash_id', weight_key=None,
                   event_grid_area_fraction_key=None):
    while True:
        events, flashes, x, y, z = (yield)
        seen, xs, ys, ws = set(), [], [], []
        weight = {}
        if weight_key is not None:
            weight = dict(zip(flashes[flash_id_key].tolist(), flashes[weight_key].tolist()))
        for k in range(len(x)):
            fid = events[flash_id_key][k]
            key = (int(np.floor((x[k] - x0) / dx)), int(np.floor((y[k] - y0) / dy)), fid)
            if key in seen:
                continue
            seen.add(key)
            w = 1.0 if event_grid_area_fraction_key is None else events[event_grid_area_fraction_key][k]
            if weight_key is not None:
                w = w * weight[fid]
            xs.append(x[k])
            ys.append(y[k])
            ws.append(w)
        if xs:
            target.send((np.array(xs), np.array(ys), np.array(ws)))


@coroutine
def project(x_coord, y_coord, z_coord, mapProj, geoProj, target, use_flashes=False, transform=True):
    while True:
        events, flashes = (yield)
        points = flashes if use_flashes else events
        x, y, z = mapProj.fromECEF(*geoProj.toECEF(points[x_coord], points[y_coord], points[z_coord]))
        target.send((events, flashes, np.atleast_1d(x), np.atleast_1d(y), np.atleast_1d(z)))


@coroutine
def no_projection(x_coord, y_coord, z_coord, target, use_flashes=False):
    while True:
        events, flashes = (yield)
        points = flashes if use_flashes else events
        target.send((events, flashes, points[x_coord], points[y_coord], points[z_coord]))


@coroutine
def extract_events_for_flashes(target, flashID_key='flash_id'):
    while True:
        events, flashes = (yield)
        keep = [k for k in range(len(events)) if any(bool(events[flashID_key][k] == f) for f in flashes[flashID_key])]
        target.send((events[keep], flashes))


@coroutine
def flash_count_log(logfile, format_string="%s flashes in frame starting at %s"):
    frame_times = {}
    while True:
        flashes, frame_start_time = (yield)
        frame_times[frame_start_time] = frame_times.get(frame_start_time, 0) + len(flashes)


@coroutine
def flashes_to_frames(time_edges, targets, time_key='start', do_events=False, time_edges_datetime=None,
                      flash_counter=None):
    if time_edges_datetime is None:
        time_edges_datetime = time_edges
    assert len(time_edges) == len(time_edges_datetime)
    assert len(time_edges) == len(targets) + 1

    def frames(t):
        order = sorted(range(len(t)), key=lambda k: float(t[k]))
        t_sorted = np.array([float(t[k]) for k in order], dtype='f8')
        idx = np.searchsorted(t_sorted, np.array(time_edges, dtype='f8'))
        return [order[i:j] for i, j in zip(idx[:-1], idx[1:])]

    while True:
        events, flashes = (yield)
        fl_frames = frames(flashes[time_key])
        ev_frames = frames(events[do_events]) if do_events is not False else None
        for k, target in enumerate(targets):
            these_flashes = flashes[fl_frames[k]]
            these_events = events[ev_frames[k]] if ev_frames is not None else events
            if flash_counter is not None:
                flash_counter.send((these_flashes, time_edges_datetime[k]))
            target.send((these_events, these_flashes))
