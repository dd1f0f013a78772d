"""Stand-in for lmatools.lasso.cell_lasso_timeseries."""
from datetime import datetime


class TimeSeriesGenericFlashSubset(object):
    def __init__(self, t_start, t_end, dt, base_date=None):
        if base_date is None:
            base_date = datetime(t_start.year, t_start.month, t_start.day)
        self.t_start, self.t_end, self.dt, self.base_date = t_start, t_end, dt, base_date
