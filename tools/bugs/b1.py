T = 'glmtools/io/traversal.py'
G = 'glmtools/io/glm.py'

TREE = '''
import numpy as np, xarray as xr
from glmtools.io.traversal import OneToManyTraversal
def tree(a, b, bp, c, cp):
    ds = xr.Dataset({'a_id': ('na', np.array(a)), 'b_id': ('nb', np.array(b)), 'b_parent': ('nb', np.array(bp)),
                     'c_id': ('nc', np.array(c)), 'c_parent': ('nc', np.array(cp))})
    ds = ds.set_coords(list(ds.data_vars))
    return OneToManyTraversal(ds, ['a_id', 'b_id', 'c_id'], ['b_parent', 'c_parent'])
'''

BUGS = [
    dict(id='C01-unordered', property='C01',
         needs='a request at the middle level whose parents have ids that are not their positions plus a constant',
         what_it_breaks='Ancestors are located by searching the id column as if it were sorted, so unsorted parent '
                        'ids pick a wrong or no ancestor.',
         edits=[(T, '''                e_group = self._group_indices(self.entity_groups[e_var])
                e_iter = (e_group[eid] for eid in last_entity_ids
                          if eid in e_group)
                e_idx = list(itertools.chain.from_iterable(e_iter))
                if len(e_idx) == 0:
                    # xarray doesn't accept an empty array as a valid index
                    e_idx = slice(0, 0)
                indexer[dataset[e_var].dims[0]]=e_idx
                dataset = dataset[indexer]
            if (p_var is not None):''', '''                all_ids = self.dataset[e_var].data
                e_idx = [i for i in np.searchsorted(all_ids, last_entity_ids)
                         if (i < len(all_ids)) and
                            (all_ids[i] in last_entity_ids)]
                if len(e_idx) == 0:
                    # xarray doesn't accept an empty array as a valid index
                    e_idx = slice(0, 0)
                indexer[dataset[e_var].dims[0]]=e_idx
                dataset = dataset[indexer]
            if (p_var is not None):''')],
         demo=TREE + '''
t = tree([9, 2, 5], [1, 2, 3], [9, 2, 5], [10, 11, 12], [1, 2, 3])
out = t.reduce_to_entities('b_id', [3, 1])
assert sorted(out.a_id.values) == [5, 9], out.a_id.values
assert list(out.b_id.values) == [3, 1]
assert sorted(out.c_id.values) == [10, 12]
'''),
    dict(id='C02-flash-order', property='C02',
         needs='flashes whose ids are not stored in ascending order and have different numbers of events',
         what_it_breaks='Events per flash are listed in order of flash id instead of in stored order.',
         edits=[(G, """            grouper = self.dataset.groupby('event_parent_flash_id').groups
            count = [len(grouper[eid]) if (eid in grouper) else 0
                     for eid in self.dataset['flash_id'].data]
""", """            _, count = np.unique(self.dataset['event_parent_flash_id'].data,
                                 return_counts=True)
""")],
         files=['fixture.py'],
         demo='''
import fixture
from glmtools.io.glm import GLMDataset
ds = fixture.glm([9, 4], [1, 2], [10, 11, 12], [9, 4], [1, 1, 2])
d = GLMDataset(ds, ellipse_rev=0).dataset
assert list(d.flash_child_event_count.values) == [2, 1], d.flash_child_event_count.values
'''),
    dict(id='C03-lying-only', property='C03',
         needs='a file whose only damage is events that refer to a group that does not exist',
         what_it_breaks='Such files are no longer repaired: the dangling events stay in the loaded tree.',
         edits=[(G, '''                child_count, orphan_child_count, bad_parent_ids = parent_stats
                if orphan_child_count > 0: tree_problems = True''',
                 '''                child_count, orphan_child_count, bad_parent_ids = parent_stats
                if orphan_child_count > 1: tree_problems = True''')],
         files=['fixture.py'],
         demo='''
import fixture
from glmtools.io.glm import GLMDataset
ds = fixture.glm([3, 5], [1, 2], [10, 11, 12], [3, 5], [1, 2, 9])
try:
    d = GLMDataset(ds, ellipse_rev=0).dataset
except KeyError:
    raise SystemExit(1)
assert sorted(d.event_id.values) == [10, 11], d.event_id.values
assert sorted(d.group_id.values) == [1, 2]
'''),
    dict(id='C04-window-anyaxis', property='C04',
         needs='a flash centred in the window, one of whose events is inside the x range and another inside the y '
               'range, but none inside both',
         what_it_breaks='The event test looks at the axes separately, so a flash without any event in the window is '
                        'returned.',
         edits=[(G, """        good = np.ones(self.dataset.event_id.shape[0], dtype=bool)
        event_x = self.dataset.event_x.data
        good &= ((event_x < x_range[1]) & (event_x > x_range[0]))
        event_y = self.dataset.event_y.data
        good &= ((event_y < y_range[1]) & (event_y > y_range[0]))
        flash_ids = self.dataset.event_parent_flash_id.data[good]
        bad_ids = np.unique(self.dataset.event_parent_flash_id.data[~good])
        log.debug(""", """        event_x = self.dataset.event_x.data
        good_x = ((event_x < x_range[1]) & (event_x > x_range[0]))
        event_y = self.dataset.event_y.data
        good_y = ((event_y < y_range[1]) & (event_y > y_range[0]))
        parent_flash = self.dataset.event_parent_flash_id.data
        flash_ids = np.intersect1d(parent_flash[good_x], parent_flash[good_y])
        bad_ids = np.unique(parent_flash[~(good_x & good_y)])
        log.debug(""")],
         files=['fixture.py'], demo='''
import numpy as np, fixture
from glmtools.io.glm import GLMDataset
ds = fixture.glm([3, 5], [1, 2], [10, 11, 12, 13], [3, 5], [1, 1, 2, 2])
g = GLMDataset(ds, ellipse_rev=0)
g.dataset['flash_x'].values[:] = [0.01, 0.012]
g.dataset['flash_y'].values[:] = [0.01, 0.012]
g.dataset['event_x'].values[:] = [0.01, 0.09, 0.011, 0.09]
g.dataset['event_y'].values[:] = [0.09, 0.01, 0.011, 0.09]
out = g.subset_flashes(x_range=(0, 0.02), y_range=(0, 0.02))
assert list(out.flash_id.values) == [5], out.flash_id.values
assert sorted(out.event_id.values) == [12, 13]
'''),
    dict(id='C05-group-overflow', property='C05',
         needs='a group whose area overflowed, in a file where flash and group areas are packed differently',
         what_it_breaks='An overflowed group area is replaced by the largest flash area instead of the largest group '
                        'area.',
         edits=[(G, '''            self.dataset.group_area[overflow_gr_areas] = max_gr_area''',
                 '''            self.dataset.group_area[overflow_gr_areas] = max_fl_area''')],
         files=['fixture.py'],
         demo='''
import numpy as np, fixture
from glmtools.io.glm import GLMDataset
ds = fixture.glm([3, 5], [1, 2], [10, 11], [3, 5], [1, 2], group_area=[np.nan, 2e8])
ds.group_area.encoding.update(scale_factor=100000.0, add_offset=5e5, _FillValue=50000)
d = GLMDataset(ds, ellipse_rev=0).dataset
assert np.allclose(d.group_area.values, [(5e5 + 5e9) / 1e6, 200.0]), d.group_area.values
assert np.allclose(d.flash_area.values, [200.0, 400.0])
'''),
]
BUGS = [b for b in BUGS if b['demo']]
