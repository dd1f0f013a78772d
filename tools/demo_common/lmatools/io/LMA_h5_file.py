"""Stand-in for lmatools.io.LMA_h5_file."""


class LMAh5Collection(object):
    """Collection of files addressed by the start times of their frames."""

    def __init__(self, filenames, sort_filenames=True, base_date=None, min_points=1):
        self.base_date = base_date
        self.min_points = min_points
        self._filenames = sorted(filenames) if sort_filenames else list(filenames)
        self._time_lookup = {}
        self.times = [t for t in self._all_times()]
        self.times.sort()

    def _all_times(self):
        for fname in self._filenames:
            for t in self._table_times_for_file(fname):
                yield t

    def data_for_time(self, t0):
        raise NotImplementedError

    def __iter__(self):
        for t in self.times:
            yield self.data_for_time(t)


def parse_lma_h5_filename(filename):
    """(start, end) of a name such as LYLOUT_140526_094000_0600.dat.flash.h5"""
    from datetime import datetime, timedelta
    _, day, time, length = filename.split('.')[0].split('_')
    start = datetime.strptime(day + time, '%y%m%d%H%M%S')
    return start, start + timedelta(seconds=int(length))
