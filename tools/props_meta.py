"""Property texts (properties.jsonl) and which of them have no check."""

NOTES = ('No hooks are compiled into the repository. ./check regenerates the encoding from /repo/glmtools on every '
         'run. Bounds per scenario are in the evidence files and in DESIGN.md.')

NOT_APPLICABLE = {}


def P(id, title, statement, over, text, why, files, mechanism, observe=None, note=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism]))
    if observe:
        d['anchors']['observe_at'] = observe
    if note:
        d['note'] = note
    return d


T = 'glmtools/io/traversal.py'
G = 'glmtools/io/glm.py'
MG = 'glmtools/grid/make_grids.py'
AC = 'glmtools/grid/accumulate.py'
ML = 'glmtools/io/mimic_lma.py'
IM = 'glmtools/io/imagery.py'

PROPS = [
    P('C01', 'Reducing a tree keeps exactly the chosen entities and their relatives',
      'Reducing a hierarchical dataset to a list of entities at one level returns those entities in the order asked '
      'for (once per request, absent ids ignored), every descendant of each of them, and each of their ancestors '
      'exactly once. Nothing else is returned at any level, and every row keeps its own data and parent reference.',
      ['inputs', 'programs'],
      'All trees up to the stated sizes with any ids, any storage order and any parent assignment, for requests at '
      'the top, middle or bottom level, including repeated and absent ids; some trees of thousands of rows.',
      'The existing tests reduce one fixed four-level tree at three hand-picked spots; ids there are ascending and '
      'children are stored next to their parents, so position/id mix-ups and unordered storage are never seen.',
      [T], [('descending and ascending pruning passes', T + ':reduce_to_entities')],
      ['rows, ids, parent references and data values of the returned dataset']),
    P('C02', 'Child counts and replicated ancestor ids match the tree',
      'For every entity, the reported number of children at each level below equals the number of rows that refer to '
      'it, zero included, listed in the stored order of the entities. The ancestor id attached to each row at any '
      'level above is the id reached by following parent references, and a loaded lightning file carries these '
      'counts and flash ids for its flashes, groups and events.',
      ['inputs'],
      'All trees up to the stated sizes and depth (two to four levels), with ids in any order and any parent '
      'assignment.',
      'Tests check one fixed tree with ordered ids and no childless entities.',
      [T, G], [('counting through parent groups', T + ':count_children'),
               ('walking up parent references', T + ':replicate_parent_ids'),
               ('derived variables on load', G + ':GLMDataset.__init_parent_child_data')],
      ['returned counts and ids', 'derived variables of a loaded dataset']),
    P('C03', 'Broken parent references are reported and repaired on load',
      'The consistency check reports exactly the entities nobody refers to and exactly the references that name no '
      'existing entity. Loading a lightning file with such problems keeps precisely the largest self-consistent set '
      'of flashes, groups and events (each kept row unchanged), leaves a consistent file untouched, and accepts files '
      'in which any level is empty.',
      ['inputs', 'fault_sequences'],
      'All small files with any combination of dangling references, childless flashes or groups and empty levels.',
      'No test loads an inconsistent or an empty file; the damage patterns are combinatorial.',
      [T, G], [('set comparison of ids and references', T + ':check_parent_child'),
               ('repair by pruning', G + ':GLMDataset.__init__')],
      ['reported counts and id sets', 'ids, references and counts of the loaded dataset']),
    P('C04', 'Flash selection returns exactly the flashes that meet every criterion',
      'Selecting flashes by longitude, latitude or fixed grid window (exclusive bounds) and by minimum event or group '
      'count (inclusive) returns exactly the flashes that meet all given criteria and have at least one event inside '
      'the instrument field of view and the fixed grid window, unless that last test is switched off. Each selected '
      'flash comes with all of its groups and events and no others, and selection by id returns those flashes in the '
      'order asked for.',
      ['inputs', 'configurations'],
      'All positions, window limits and thresholds, every combination of optional criteria, over several small trees.',
      'The only subset tests run on one file with fixed windows, and currently cannot even load it.',
      [G], [('boolean selection over flashes and events', G + ':GLMDataset.subset_flashes'),
            ('selection by id', G + ':GLMDataset.get_flashes')],
      ['flashes, groups and events of the returned dataset']),
    P('C05', 'Energies load as nJ and areas as km2 without losing any lightning',
      'After loading, every flash, group and event energy is the stored energy expressed in nJ and every flash and '
      'group area is the stored area expressed in km2, with matching unit labels. An event stored below the smallest '
      'representable energy gets half of that smallest energy, an area lost to overflow gets the largest encodable '
      'area of its own variable, unexpected energy units are refused, and both conversions can be switched off.',
      ['inputs', 'configurations'],
      'All energies over the encodable range, all areas with any pattern of missing values, areas given in m2 or km2.',
      'No test looks at energies or areas; the special values appear only in rare files.',
      [G], [('zero energy floor', G + ':GLMDataset._eliminate_zero_energy'),
            ('area overflow', G + ':GLMDataset._check_area_overflow'),
            ('unit conversion', G + ':GLMDataset._change_energy_units, _check_area_units')],
      ['energy and area variables and unit labels of the loaded dataset']),
    P('C06', 'Combining events by location conserves energy, counts and areas',
      'Combining the events of a dataset by fixed grid location gives one entry per occupied location, whose energy, '
      'event count and mean position are those of exactly the events there. Its flash and group counts, total areas '
      'and smallest flash area take each flash or group with an event there once, every event names its location, '
      'and a dataset without events gives no entries.',
      ['inputs'],
      'All event positions, energies and areas over several small trees, with default and caller-given steps.',
      'The one test for this compares totals on a single sample file; duplicates of a flash or group inside one '
      'location and shared locations between flashes are not examined.',
      [G], [('grouping by location', G + ':get_lutevents')],
      ['the combined entries of the returned dataset']),
    P('C07', 'Two positions share a location id exactly when they share a cell',
      'Dividing a rectangular range into square cells of a given step assigns equal integer ids to two positions '
      'exactly when both lie in the same cell. This includes the last row and column and ranges that are not a '
      'multiple of the step, and each position is numbered independently of the others.',
      ['inputs', 'configurations'],
      'Any two positions within the range, for the default step and range and for several other ranges.',
      'Collisions only occur between particular pairs of cells out of 500 million cells.',
      [G], [('row-major cell numbering', G + ':discretize_2d_location')],
      ['returned ids']),
    P('C08', 'Lightning is placed where the satellite sees it on the right ellipsoid',
      'Longitude and latitude convert to the scan angles at which the satellite sees that point of the lightning '
      'ellipsoid, whatever the satellite longitude and also across the date line. Loading a file places flashes, '
      'groups and events this way using the ellipsoid in force on the product date (changed on 15 October 2018) '
      'unless the caller names one.',
      ['inputs', 'configurations'],
      'Any satellite longitude, longitudes written either side of the date line, a set of offsets over the disk, '
      'both ellipsoids, dates around the change.',
      'Tests cover a few points for one satellite longitude away from the date line.',
      ['glmtools/io/lightning_ellipse.py', G],
      [('projection', 'glmtools/io/lightning_ellipse.py:ltg_ellps_lon_lat_to_fixed_grid'),
       ('choice of ellipsoid', 'glmtools/io/lightning_ellipse.py:ltg_ellpse_rev'),
       ('positions on load', G + ':GLMDataset.__init_fixed_grid_data')],
      ['returned scan angles', 'position variables of a loaded dataset']),
    P('C09', 'Slicing an outline with a grid conserves its area, cell by cell',
      'Slicing a polygon with the cells of a grid gives one piece for each cell it overlaps, labelled with that cell, '
      'whose fraction is the share of the polygon inside the cell; shares of a polygon inside the grid add up to one. '
      'This holds wherever the polygon lies, including on and beyond the edge of the grid and for polygons larger or '
      'smaller than the cells, and the share of each cell that is covered follows from the piece and the cell area.',
      ['inputs', 'configurations'],
      'Several outlines at any position on, across and off grids of both index orders, regular and irregular, with '
      'and without a bounding box.',
      'No test slices a polygon; losses only occur for polygons that reach particular edges or are larger or smaller '
      'than a few cells.',
      ['glmtools/grid/clipping.py'],
      [('candidate cells', 'glmtools/grid/clipping.py:QuadMeshSubset.quads_in_bbox, quads_nearest'),
       ('clipping and fractions', 'glmtools/grid/clipping.py:QuadMeshPolySlicer.slice, make_sub_polys')],
      ['pieces, fractions and cell indices returned by the slicer']),
    P('C10', 'Pixel outlines come from the corner table at the right place',
      'The outline of an event is its position plus the four corner offsets, interpolated linearly from the lookup '
      'table at that position and scaled by the requested enlargement; outside the table the offsets of the nearest '
      'entry apply, or the outline is undefined if extrapolation is switched off. Reading the published corner table '
      'returns every corner, longitude and latitude unchanged and in order, and the nearest-pixel lookup names the '
      'row and column of the pixel at a position, leaving out missing pixels. Tables and lookups that are saved and loaded '
      'again are unchanged.',
      ['inputs'],
      'Any positions inside, on the nodes of and outside several tables with any offsets, with missing entries, and '
      'with a satellite longitude shift.',
      'No test looks up an outline; errors show only off the table nodes or outside its range.',
      ['glmtools/io/ccd.py'],
      [('corner lookup', 'glmtools/io/ccd.py:quads_from_corner_lookup, load_pixel_corner_lookup'),
       ('pixel tables', 'glmtools/io/ccd.py:create_pixel_lookup, read_pixel_location_mat_file'),
       ('saving', 'glmtools/io/ccd.py:save_pixel_lookup, load_pixel_lookup')],
      ['returned outlines']),
    P('C11', 'Gridding input conserves energy and weights counts by cell coverage',
      'For every grid cell that lightning events overlap, one table row is produced whose energy is the sum of each '
      'event energy times the share of that event inside the cell, so the energy of events inside the grid is '
      'conserved. Counts and total areas are weighted by the covered share of the cell, the smallest flash area is '
      'the smallest of the flashes there, and the flash and group rows keep their own times, areas and ids. Splitting '
      'the flashes into chunks or selecting some of them changes nothing else.',
      ['inputs', 'configurations'],
      'Any energies and areas, events at any position along a row of cells including across the border, events '
      'sharing a location or overlapping, all chunk sizes, and all selection criteria.',
      'No test produces these tables; losses depend on where an event lies relative to the cells.',
      ['glmtools/io/mimic_lma.py', 'glmtools/grid/split_events.py'],
      [('reading, splitting and weighting', 'glmtools/io/mimic_lma.py:fast_fixed_grid_read_chunk'),
       ('combination per cell', 'glmtools/io/mimic_lma.py:_fake_lma_events_from_split_glm_lutevents'),
       ('pieces as a table', 'glmtools/grid/split_events.py:split_event_data')],
      ['the tables returned or sent to the gridding pipeline']),
    P('C12', 'Products add up over files and fall in the right time frame',
      'Gridding several files over several time frames gives, for every frame and cell, the sum over all files in '
      'that frame of the counts, areas and energy, and the smallest of their smallest flash areas. The order of the '
      'files does not matter, a frame includes its start and excludes its end, and lightning outside all frames '
      'and flashes with fewer events or groups than asked for contribute nothing.',
      ['inputs', 'histories'],
      'Any energies and areas, sequences of up to three files placed around frame boundaries, any thresholds, and sequences of '
      'tables with any values in any cells.',
      'Nothing in the repository tests gridding; accumulation errors need several files over one spot, or a file '
      'exactly at a frame boundary.',
      [MG, AC, ML],
      [('accumulation', AC + ':accumulate_var_on_grid_direct_idx, accumulate_minvar_on_grid_direct_idx'),
       ('distribution over frames', MG + ':GLMlutGridder.pipeline_setup, grid_GLM_flashes')],
      ['the imagery datasets handed to the file writer']),
    P('C13', 'Imagery holds the right lightning in the right pixel',
      'Gridding a file and writing imagery gives images of exactly the requested extent whose pixel at each '
      'coordinate holds the counts, areas and energy of the lightning there; average areas are total area over '
      'count. Rows run from north to south, start and end times are those of the frame, values too small for packed '
      'storage are raised to the smallest storable one, and writing does not alter the accumulated grids.',
      ['inputs', 'configurations'],
      'Any energies and areas for several arrangements of events on square and oblong grids, some of which cut '
      'events off, plain or packed, and written once or twice.',
      'Nothing in the repository tests imagery contents; flips, transpositions and off-by-one trimming need an '
      'oblong grid and an independent account of where each event belongs.',
      [MG, IM],
      [('image assembly', IM + ':glm_image_to_var, get_glm_global_attrs, write_goes_imagery'),
       ('trimming and division', MG + ':GLMGridder.write_grids, grid_GLM_flashes')],
      ['the imagery datasets handed to the file writer']),
    P('C14', 'Gridding in tiles gives the same picture as gridding in one piece',
      'When the target area is divided into tiles, every pixel of the area is in exactly one tile and holds the same '
      'values as without tiles, including for events that straddle tiles. Options such as packing apply to every '
      'tile, and tiling the same files again gives the same result.',
      ['inputs', 'configurations'],
      'Any energies and areas for events within and across tiles, for one to three tiles a side, packed or plain, '
      'and for extents that do not divide evenly.',
      'No test grids in tiles; losses occur only at tile boundaries, and option handling differs only after the '
      'first tile.',
      [MG],
      [('tile limits and padding', MG + ':subdivide_bnd, subdivided_fixed_grid'),
       ('processing of each tile', MG + ':proc_each_grid, grid_GLM_flashes')],
      ['the imagery datasets handed to the file writer']),
    P('C16', 'Aggregating images over time sums, averages and takes minima correctly',
      'Aggregating a time series of images over intervals gives, per interval and pixel, the sum of the densities '
      'and energies, average flash and group areas weighted by their own extent densities, and the smallest flash '
      'area, ignoring images in which the pixel is missing. An image belongs to the interval that includes its '
      'start, whatever the order of the images, the reported coverage is that of the intervals, also where '
      'they begin before the first image, and summed and smallest values keep their units.',
      ['inputs', 'histories'],
      'Any pixel values and any pattern of missing images for up to five images, with the default or a requested '
      'range.',
      'The existing test needs data files that are not available; which interval a boundary image falls in and '
      'which weights an average uses never show on constant data.',
      [IM], [('aggregation', IM + ':aggregate')], ['the returned dataset']),
    P('C15', 'Packed imagery reads back the values that were put in',
      'Reading an image written with packing gives back every pixel to half a storage step of its product, and a '
      'nonzero value smaller than one step as one step, over the documented range of each product. A pixel is '
      'missing exactly where there was no lightning. Pixel coordinates, projection and subpoint read back unchanged '
      'up to their own storage step.',
      ['inputs', 'configurations'],
      'Any pixel values within the documented ranges of each product, for the scenes and grid spacings on offer, '
      'written by the imagery writer and by a whole gridding run.',
      'No test writes a packed file; rounding, range and missing value handling only fail for particular values.',
      [IM, MG],
      [('packing of products', IM + ':glm_image_to_var'), ('storage of coordinates', IM + ':get_goes_imager_fixedgrid_coords, get_goes_imager_proj, get_goes_imager_subpoint_vars'),
       ('files from a gridding run', MG)],
      ['values read from the written file']),
    P('C17', 'Images say what they show: scene, spacing, period, satellite, file name',
      'Every image names in its attributes and its file name the scene, grid spacing, satellite, and the start and '
      'end of the period of its content, and the units of densities state the size of a pixel and the length of the '
      'period. Files are written where the path template says, and the run reports '
      'exactly the files it wrote. A period without lightning gives an image that is there and empty.',
      ['inputs', 'configurations'],
      'Any combination of scene, position, spacing, period, satellite and path template, with and without '
      'lightning.',
      'No test writes imagery; times, scenes and names are never compared with the content.',
      [IM, MG],
      [('global attributes and scene', IM + ':infer_scene_from_dataset, get_glm_global_attrs'),
       ('file names', IM + ':write_goes_imagery'), ('run and output path', MG + ':grid_GLM_flashes, FixedGridGOESRGridder')],
      ['written datasets, paths and the list returned by a gridding run']),
    P('C18', 'Imagery files open as a time series in the listed order with their own times',
      'Opening a list of image files gives one dataset with one time step per file, in the order of the list, '
      'labelled with the start of that file and with the pixels of that file. The opened series can be aggregated '
      'over time.',
      ['inputs', 'histories'],
      'Any pixel values for up to three files in any order, also with equal times; up to twenty files.',
      'The existing test needs data files that are not available.',
      [IM], [('opening', IM + ':open_glm_time_series, aggregate')], ['the returned dataset']),
    P('C19', 'Point tables for other tools hold every selected flash, group and event',
      'The point tables made without a target grid hold each selected flash, group and event exactly once, with its '
      'own position, energy, area, time since the reference date and number of events, and each event carries the '
      'id of its parent. A collection of files finds each file by its start time, in any order, and gives an empty '
      'table where nothing was selected.',
      ['inputs', 'configurations'],
      'Any positions, energies and areas for trees of up to three groups and four events, with any selection of '
      'flashes, chunk size and reference date.',
      'No test reads the tables or the collections.',
      [ML], [('tables', ML + ':mimic_lma_dataset, read_flashes'), ('collections', ML + ':GLMncCollection, TimeSeriesGLMFlashSubset')],
      ['the returned tables']),
    P('C20', 'Text listings convert to datasets with every flash, group and event in place',
      'Converting a text listing of flashes, groups and events gives one row per listed flash, group and event, in '
      'the order of the listing, each with its own id, times, position, energy, area, child count, pixel and parent '
      'id under the production variable names. Ids, positions, times and parent ids become coordinates, other lines '
      'are ignored, and a listing without entries converts to an empty dataset.',
      ['inputs'],
      'Any numbers in listings of up to three flashes, including flashes without groups, headings and blank lines.',
      'Nothing tests the conversion; exchanged columns only show when all numbers differ.',
      ['glmtools/io/convert_lcfa.py'],
      [('parsing', 'glmtools/io/convert_lcfa.py:parse_LCFA_ASCII'), ('merging', 'glmtools/io/convert_lcfa.py:merge_dataframes_to_xarray')],
      ['the tables, the merged dataset and the written file']),
    P('C21', 'Numbers stored as signed but meant as unsigned are read as meant',
      'Values and event positions that were unpacked as signed integers come out as the unsigned integers they stand '
      'for, exactly to the storage step. Loading a file of 15 October to 6 November 2018, whose time offsets lack '
      'the unsigned mark, gives every flash, group and event time as meant, also when the file had to be repaired; '
      'other files, datasets already in memory, and loading with the correction switched off keep times as stored.',
      ['inputs', 'configurations', 'fault_sequences'],
      'Any stored one- or two-byte numbers and five packings, with unpacking rounded either way; any stored times in '
      'files before, during and after the weeks, consistent or damaged.',
      'Rounding fails for particular stored numbers only, and the affected weeks are not in the sample data.',
      [G], [('unsigned values', G + ':fix_unsigned, fix_event_locations'),
            ('times', G + ':GLMDataset._check_and_fix_missing_unsigned_time')],
      ['returned values', 'time variables of the loaded dataset']),
    P('C22', 'The gridding script sets up the grid, period and settings its options ask for',
      'For a defined sector the script grids exactly that sector at the defined spacing nearest to the one asked for; '
      'for a custom grid it covers whole cells of the spacing asked for, centred on the point given. The period runs from the earliest file start to 20 s after the latest, in whatever '
      'order the files are named, unless start or end are given. Thresholds, frame duration, tiles, packing, splitting '
      'and output path reach the gridding as given, and the image written has that extent and those coordinates.',
      ['inputs', 'configurations'],
      'Any centre, size and spacing as text on the command line, three positions and sectors, any thresholds and frame '
      'duration, several orders of files, names and given times.',
      'The script is tried on one sector with ordered files; off-by-one cells and swapped axes need other options.',
      ['examples/grid/make_GLM_grids.py', G],
      [('options', 'examples/grid/make_GLM_grids.py:create_parser, nearest_resolution, grid_setup'),
       ('file names', G + ':parse_glm_filename')],
      ['arguments the script gives to the gridding', 'images written']),
    P('C23', 'Splitting flashes, groups and events by the grid keeps their energy and place',
      'When flashes, groups and events are each split by a target grid, on the fixed grid or in longitude and latitude, '
      'every one gets rows exactly for the cells its footprint touches; the footprint of a flash or group is the union '
      'of its events\' outlines. Each row carries its id and time, a place inside the cell, the share of the cell '
      'covered, and the share of the energy in proportion to the area, so that the energy of every flash, group and '
      'event is conserved, whether its footprint is in one part or several.',
      ['inputs', 'configurations'],
      'Any energies and areas; trees of up to two flashes, three groups and four events whose outlines overlap, touch '
      'or lie apart, two satellite longitudes, results returned or sent on.',
      'No test splits flashes and groups; only footprints in several parts or shared places show most mistakes.',
      ['glmtools/io/mimic_lma.py', 'glmtools/grid/split_events.py', 'glmtools/grid/clipping.py'],
      [('splitting', 'glmtools/io/mimic_lma.py:read_flash_chunk'),
       ('joining', 'glmtools/grid/clipping.py:join_polys'),
       ('weights', 'glmtools/grid/split_events.py:replicate_and_weight_split_child_dataset, split_*_dataset_from_props')],
      ['point tables of each level']),
    P('C24', 'Operations on a loaded file and gridding runs do not affect each other',
      'Selecting flashes, looking up flashes or groups, combining events, counting children, making point tables and '
      'preparing gridding input leave the loaded file and its grid unchanged, and each gives the same result whatever was '
      'done with that file or others before, in any order and however often. A gridding run gives the same images '
      'whatever was gridded before in the same process.',
      ['histories', 'inputs'],
      'Any ordered pair of ten operations on one file, ten orders of all of them, any ordered pair of five gridding runs '
      'with the first repeated; energies, areas and limits symbolic.',
      'Tests load a file, do one thing and stop; results that depend on what was done before never show.',
      ['glmtools/io/glm.py', 'glmtools/io/traversal.py', 'glmtools/io/mimic_lma.py', 'glmtools/io/ccd.py',
       'glmtools/io/imagery.py', 'glmtools/grid/make_grids.py'],
      [('selection', 'glmtools/io/glm.py:subset_flashes, get_flashes, get_lutevents'),
       ('reduction', 'glmtools/io/traversal.py:reduce_to_entities'),
       ('tables', 'glmtools/io/mimic_lma.py:read_flashes, read_flash_chunk'),
       ('corner table', 'glmtools/io/ccd.py:load_pixel_corner_lookup'),
       ('gridding', 'glmtools/grid/make_grids.py:grid_GLM_flashes')],
      ['results of the operations, the loaded dataset before and after, written images']),
    P('C25', 'Loading and selecting keep everything else stored in the file',
      'Loading a lightning file changes only what the requested steps name (repairing references, converting areas, '
      'converting energies, adding child counts and grid positions), and each step can be switched off on its own '
      'whatever the others are. Every other variable, its dimensions and description, and the global attributes come '
      'through loading and through any selection of flashes, groups or events unchanged, row by row.',
      ['configurations', 'inputs'],
      'All combinations of the four steps, files and datasets, whole files and three kinds of damage, seven ways of '
      'selecting; energies, areas with missing values, flags and other numbers symbolic.',
      'Tests load with the default options and look at ids only; a step that leaks into another option or a variable '
      'dropped by a selection does not show.',
      ['glmtools/io/glm.py', 'glmtools/io/traversal.py'],
      [('options', 'glmtools/io/glm.py:GLMDataset.__init__'),
       ('selection', 'glmtools/io/glm.py:subset_flashes, get_flashes'),
       ('reduction', 'glmtools/io/traversal.py:reduce_to_entities')],
      ['loaded dataset, reduced dataset']),
]
