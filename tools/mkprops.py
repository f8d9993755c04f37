"""Write /verif/properties.jsonl (the source of the property list)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'src/pyhipp/'
P = []


def p(id, title, statement, over, qtext, tests, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=tests,
             anchors=dict(files=[S + f for f in files],
                          mechanism=[dict(name=a, where=S + b) for a, b in mech]))
    if state:
        d['anchors']['state'] = [dict(name=a, meaning=b, where=S + c) for a, b, c in state]
    d['anchors']['observe_at'] = observe or ['return values of the public API']
    d['anchors']['hook_needed'] = None
    assert len(title) <= 80, title
    P.append(d)


# ---------------------------------------------------------------- core
p('C01', 'The hierarchical dictionary behaves as a nested mapping',
  'Under any history of reads, writes, deletions, merges and copies, the hierarchical dictionary agrees with a '
  'plain nested mapping: a tuple of keys acts on each key in turn and in order, a slash-separated key walks one '
  'level per non-empty part, membership and iteration see direct children in insertion order. '
  'Copies and unions are new dictionaries that never change their operands, in-place union equals update, and a missing '
  'key or a tuple of keys and values of different lengths is an error.',
  ['inputs', 'histories'], 'all histories of operations on dictionaries nested to any depth, with plain, tuple and slash-separated keys (string keys)',
  'The two tests construct an empty and a one-level dictionary and read it back; no history, nesting, tuple or slash key is exercised.',
  ['core/containers/data_dict.py'],
  [('key splitting and iterative lookup', 'core/containers/data_dict.py: __getitem__/__setitem__/__delitem__'),
   ('copy / union', 'core/containers/data_dict.py: copy, __or__, __ior__, update')],
  [('_dict', 'the wrapped insertion-ordered dict', 'core/containers/data_dict.py')])
p('C02', 'The column table behaves as an ordered map of arrays and owns its data',
  'Under any history of column writes, deletions, merges, row and column selections, concatenations and stackings, the column table agrees '
  'with an ordered map from name to array with values, shapes and dtypes preserved; reading a column gives a reference to the stored one. '
  'Writing a column, constructing from a mapping, merging, copying (also by copy.deepcopy or pickling), selecting and concatenating store or return independent data unless sharing '
  'was asked for, so later changes to the source never show, and no operation changes its operands.',
  ['inputs', 'histories'], 'all histories of operations on tables whose columns are arrays of any dtype and dimension >= 1 (or values convertible to them), with and without copying',
  'No test touches the column table.',
  ['core/containers/data_table.py'],
  [('copy on write of columns', 'core/containers/data_table.py: __init__, __setitem__, update'),
   ('row/column selection', 'core/containers/data_table.py: subset, iloc, subcol'),
   ('concatenation and stacking', 'core/containers/data_table.py: concat, col_stacked, row_stacked')],
  [('_data', 'ordered mapping from column name to array', 'core/containers/data_table.py')])
p('C03', 'Offsets, chunks, masks and range filters select exactly the right elements',
  'For any sequence of counts, the offsets and offset pairs are the exclusive prefix sums and the chunks they delimit partition the sequence in order. '
  'Boolean and index masks are mutually inverse, a masked put writes exactly the masked elements (repeating a short source) and nothing else, a masked '
  'zip takes the first matching source else the default, masking a mapping or several arrays selects the same rows of each, and a range filter '
  'keeps exactly the elements with min <= x < max, in order.',
  ['inputs'], 'all count sequences (including zeros and empty), masks, index arrays, source arrays and open or closed bounds',
  'No test exercises these helpers.',
  ['core/dataproc/data_structs.py', 'core/dataproc/iter.py', 'core/dataproc/mask.py', 'core/dataproc/filter.py'],
  [('prefix sums', 'core/dataproc/data_structs.py: Array.count_to_offset'), ('running ranges', 'core/dataproc/iter.py: Chunks'),
   ('putmask/select/nonzero', 'core/dataproc/mask.py: Mask'), ('half-open comparison', 'core/dataproc/filter.py: Range')])
p('C04', 'Bounded and guarded arithmetic stays inside its bounds',
  'Clamping returns, for every element, the nearest value inside the given bounds, leaves in-range values untouched, and modifies its input only when '
  'in-place operation was asked for; guarded division and logarithms equal the plain operation above the guard and the operation at the guard '
  'below it. Norms equal the Euclidean length along the chosen axis and normalisation gives unit vectors with unchanged direction for every vector '
  'longer than the guard.',
  ['inputs'], 'all real scalars and arrays of any shape, all bounds, guards and axes, with and without copying',
  'Tests bound three hand-written arrays; guards, axes, in-place behaviour and random inputs are not covered.',
  ['core/dataproc/num.py', 'core/dataproc/data_structs.py'],
  [('bounding', 'core/dataproc/num.py: Num.bound*'), ('guards', 'core/dataproc/num.py: safe_div, safe_lg, safe_ln'),
   ('norms', 'core/dataproc/num.py: norm, normalize')])
p('C05', 'Periodic wrapping and polar frames keep positions consistent',
  'Wrapping positions at most one period outside the box puts each in [0, L) and moves it by a whole number of periods; shifting toward a reference '
  'gives the periodic image within half a box of it (a separation of exactly half a box becomes minus half a box); elements excluded by a selection, and the caller\'s array when copying, never change. '
  'Unit vectors built from angles have length one and the right components, and rotating radial-tangential vectors to Cartesian ones preserves '
  'length and maps the radial component onto the position direction.',
  ['inputs'], 'all positions within one period of the box, references, box sizes, selections and copy flags; all angles; all positions off the polar axis',
  'No test exercises the frames.',
  ['core/dataproc/frame.py'],
  [('periodic shift', 'core/dataproc/frame.py: PeriodicBox'), ('polar basis', 'core/dataproc/frame.py: Polar')])
p('C06', 'Rectilinear grids enumerate, locate and evaluate consistently',
  'A one-dimensional grid locates x in the cell whose edges bracket it, giving -1 below the first and the last index at or beyond the last edge; its centres '
  'are the midpoints and its extent the end points, and unsorted edges are rejected. A multi-dimensional grid locates each coordinate '
  'independently, enumerates the Cartesian product in either index order, built from data spans the requested quantiles, and a function applied over it '
  'has at every grid point the value of the function there.',
  ['inputs'], 'all ascending edge lists (including repeated edges and slice notation), one to four dimensions, all query points and functions of one or more outputs',
  'No test exercises the grids.',
  ['core/dataproc/grid.py'],
  [('bisection', 'core/dataproc/grid.py: Grid1d.locate'), ('meshgrid and reshape', 'core/dataproc/grid.py: GridMd.applied, locs, locs_xy')])
p('C07', 'Structured representations are faithful, nested and serialisable',
  'An object with a structured representation reports every declared attribute under its name and in order, with nested representable '
  'objects expanded recursively and the class name included exactly when enabled; the printed form, YAML and JSON renderings describe that same structure. '
  'Every configuration-like object of the package (bins, kernels, grids, cosmologies, unit systems, readers, generators) can be rendered without error.',
  ['inputs', 'configurations'], 'all attribute names, nesting depths and values representable in the target format; all rendering options',
  'One test renders a default cosmology; nesting, lists, YAML and JSON are not covered.',
  ['core/abc.py', 'core/containers/data_dict.py', 'core/arrays/array.py'],
  [('to_simple_repr recursion', 'core/abc.py: HasDictRepr, HasListRepr'), ('rendering', 'core/abc.py: HasSimpleRepr')])
p('C08', 'Caches compute each key once; dictionaries combine with later precedence',
  'A cache returns, for a key, the value of the first computation (or the value last put) and never recomputes it, keeps keys and sub-keys '
  'apart, and caches falsy values like any other. Combining dictionaries skips absent ones, gives later dictionaries and explicit items precedence, and '
  'never changes its operands; logging prints exactly when verbose, with the object\'s name when asked.',
  ['histories', 'inputs'], 'all histories of lookups and puts over any hashable keys and any values; all sequences of dictionaries',
  'No test exercises caches or dictionary combination.',
  ['core/abc.py', 'core/dataproc/data_structs.py'],
  [('memoisation', 'core/abc.py: HasCache, HasMultiCache'), ('merging', 'core/dataproc/data_structs.py: Dict.combine_dicts')],
  [('cache', 'key -> value store', 'core/abc.py')])

p('C09', 'Array wrappers mirror the arrays they wrap and share data only when asked',
  'A wrapper built from a list, an array or another wrapper holds equal data in the requested type, sharing memory with its source exactly when copying was '
  'declined and no conversion was needed. Sizes, shapes, constant constructors, flattening and sorting agree with the wrapped array, a sorting index is a '
  'permutation that orders the flattened elements, and typed wrappers always hold their own type.',
  ['inputs', 'configurations'], 'all arrays of dimension zero to three, dtypes, source forms and copy flags',
  'No test exercises the array wrappers.',
  ['core/arrays/array.py', 'core/arrays/dtype.py', 'core/abc.py'],
  [('copy on construction', 'core/arrays/array.py: Array.__init__, core/abc.py: HasValue'), ('sorting', 'core/arrays/array.py: sorted, argsort')])

# ---------------------------------------------------------------- io
p('H01', 'A hierarchy dumped to a file is read back equal',
  'Dumping any nested mapping of numbers, text, booleans and arrays and loading it gives the same hierarchy of names with equal values, shapes and dtypes (text as its UTF-8 bytes), '
  'whether dumped through a file or a group, whole or below a key, in one call or piecewise. Loading a named item, a tuple of items, a sub-selection of an array or a '
  'pattern-filtered hierarchy gives exactly the corresponding part, and listing the file shows every item.',
  ['inputs'], 'all nested mappings of HDF5-representable values, all group paths, key tuples, slices and key patterns',
  'Tests dump and load one or two hand-written dictionaries.',
  ['io/h5/named_objs.py', 'io/h5/utils.py'],
  [('recursive dump/load', 'io/h5/named_objs.py: Group.dump, Group.load'), ('key matching', 'io/h5/utils.py: Utils.find_matched_keys')],
  observe=['values returned by load', 'file content read by h5py directly'])
p('H02', 'Write modes never clobber silently and never lose unrelated data',
  'For groups, datasets, attributes, links and whole files, exclusive creation succeeds on a free name and fails, leaving everything as it was, on a taken one; '
  'open-or-create reuses what exists, update-or-create changes the value of what exists in place without touching anything else. '
  'Over any history of such operations, including closing and reopening the file in each mode, the content equals a reference model (an operation on several items that fails may have '
  'written some of them) and operations in read mode never alter the file.',
  ['histories', 'configurations'], 'all histories of create, dump, update, delete, close and reopen over all names and modes',
  'Tests create each object kind once with the default mode on fresh names; conflicts and histories are not covered.',
  ['io/h5/named_objs.py'],
  [('conflict flags', 'io/h5/named_objs.py: DatasetManager.create*, create_group, dump'), ('open modes', 'io/h5/named_objs.py: File')],
  observe=['file content read by h5py directly', 'raised errors'])
p('H03', 'Attributes, datasets and links round-trip with their data',
  'Attributes written on a file, group or dataset read back with equal names and values; datasets created from data or from a shape hold the given '
  'data, shape and dtype and stay readable and writable by slices; soft and external links resolve to the same data as the item they point at. '
  'Reading never converts a value to something unequal: numbers, text (as text in attributes, as its UTF-8 bytes in datasets), fixed-width byte strings and empty arrays come back as such.',
  ['inputs'], 'all attribute and dataset names, values, shapes, dtypes and link targets representable in HDF5',
  'Tests read one attribute set, a few datasets and one link of each kind.',
  ['io/h5/named_objs.py', 'io/h5/utils.py'],
  [('attribute manager', 'io/h5/named_objs.py: AttrManager'), ('dataset manager', 'io/h5/named_objs.py: DatasetManager'),
   ('links', 'io/h5/named_objs.py: Group.create_soft_link, create_external_link')],
  observe=['values read through the package and through h5py'])
p('H04', 'Objects stored in files come back equivalent',
  'Objects that know how to store themselves (tables, density fields, group-like records, catalogues of arrays) written into a file under any name are '
  'restored with equal content, standing alone or as members of other stored hierarchies. A text table converted to a file stores each column '
  'under its header name with the requested type, for a path or an open group, and refuses or overwrites exactly as the chosen mode says.',
  ['inputs'], 'all objects built from representable data, all target names, all column sets and types',
  'No test stores an object or converts a text table.',
  ['io/h5/abc.py', 'io/h5/named_objs.py', 'io/h5/shortcuts.py', 'core/containers/data_table.py', 'field/cubic_box/mass_assignment.py'],
  [('h5 data protocol', 'io/h5/abc.py'), ('text conversion', 'io/h5/shortcuts.py: txt_to_h5')],
  observe=['restored objects', 'file content read by h5py directly'])
p('B01', 'Fortran record files are read exactly and defensively',
  'Reading records or sections of a sequential unformatted file in order yields exactly the values written, in the requested type and shape, '
  'and skipping a record or section leaves the file positioned exactly where reading it would. A section whose leading and trailing length '
  'markers disagree, or whose markers disagree with the requested size, is reported as an error when read or skipped and never returned as '
  'data.',
  ['inputs', 'histories', 'fault_sequences'], 'all files of records of any type and length, all interleavings of reads and skips, all single corruptions of a record marker and wrong requested sizes',
  'No test reads a binary file.',
  ['io/binary/fortran.py'],
  [('record markers', 'io/binary/fortran.py: BinaryFile.load_rec/skip_rec/load_sect/skip_sect')])
p('B02', 'Layered configuration files resolve to the most specific value',
  'Given a configuration file, a path of outer nodes that only locates the base, and a path of nested nodes, each requested option gets the value set by the deepest of the base and '
  'the nested nodes that sets it, and options set by only one of them keep that value. A node or an option that does not exist is an error, not a silent default, and the input file and arguments never change.',
  ['inputs', 'configurations'], 'all trees of options, node lists and override orders',
  'No test parses a configuration.',
  ['io/yaml.py'],
  [('nested nodes', 'io/yaml.py: ConfigFileParser')])

p('B03', 'Spreadsheets preserve nested tables',
  'A nested mapping of tables dumped to a spreadsheet and loaded back has the same nesting, order, column names and values. Each table is a sheet named by the dot-joined path of its keys '
  'below the given prefix; row labels are written only on request and floating-point numbers as rounded by the given format; several dumps into one open writer accumulate without closing it. '
  'Loading without nesting gives the sheets under their flat names, and loading as data tables gives the same columns.',
  ['inputs', 'configurations'], 'all nested mappings of tables whose joined names are valid sheet names, all prefixes and formats',
  'No test touches spreadsheets.',
  ['io/excel/__init__.py'],
  [('nested sheets', 'io/excel/__init__.py: Excel.dump_file, load_file')])

# ---------------------------------------------------------------- fields
p('F01', 'Mass assignment conserves mass and respects periodicity and order',
  'Depositing any set of particles with any weights on a periodic grid conserves the total, equals the cloud-in-cell sum computed particle by particle, shifts with '
  'the particles under whole-cell translations, is unchanged by reordering or periodic re-imaging of particles, and is additive over successive deposits. '
  'Saving a field and reading it back, or joining saved partial fields, gives the same field as depositing everything at once.',
  ['inputs', 'histories'], 'all particle sets, weights, box and grid sizes, translations, permutations and splits into successive deposits',
  'No test deposits particles.',
  ['field/cubic_box/mass_assignment.py', 'field/cubic_box/mesh.py', 'field/cubic_box/field.py'],
  [('CIC weights', 'field/cubic_box/mass_assignment.py'), ('periodic index', 'field/cubic_box/mesh.py')],
  [('data', 'accumulated grid', 'field/cubic_box/field.py')])
p('F02', 'Fourier smoothing is linear, mass preserving and scale correct',
  'The real-field transform pair recovers the field for every grid size when the shape is given (and without it when the last axis is even). '
  "Smoothing a periodic field is linear, commutes with translations, preserves the mean, multiplies each Fourier mode by the kernel's response "
  'at that wavenumber (divided by the assignment window when deconvolving), and tends to the identity as the scale goes to zero.',
  ['inputs'], 'all real fields on even and odd grids, box sizes, kernels and smoothing scales',
  'No test smooths a field.',
  ['field/cubic_box/fft.py', 'field/cubic_box/smoothing.py'],
  [('rfftn pair', 'field/cubic_box/fft.py: NdRealFFT'), ('kernels', 'field/cubic_box/smoothing.py')])
p('F03', 'The tidal field is the scaled Hessian of the potential of the density',
  'For any overdensity field, the tidal tensor is symmetric, equals mode by mode k_i k_j / k^2 times the smoothed overdensity (off-diagonal '
  'modes at the sampling limit aside), has zero mean, its trace equals the smoothed overdensity less its mean, and its eigenvalues are sorted '
  'and sum to the trace with eigenvectors that diagonalise it. It commutes with translations and with permutations and reflections of the axes.',
  ['inputs'], 'all overdensity fields, grid sizes, box sizes and smoothing scales',
  'No test computes a tidal field.',
  ['field/cubic_box/gravity.py', 'field/cubic_box/fft.py'],
  [('Fourier Poisson solve', 'field/cubic_box/gravity.py: TidalField')])
p('F04', 'Cosmic-web classes and field interpolation follow the field exactly',
  'The web class of every cell is the number of tidal eigenvalues above the threshold, the class at a position is that of its nearest cell, the cells of each type partition the grid and the fractions add to one. '
  'Interpolating a field at positions is periodic, reproduces grid values at grid points, reproduces trilinear functions between them, and never leaves the range of the surrounding cells.',
  ['inputs'], 'all eigenvalue fields, thresholds, fields and positions including cell and box boundaries',
  'No test classifies or interpolates.',
  ['field/cubic_box/cosmic_web.py', 'field/cubic_box/mesh.py'],
  [('classification', 'field/cubic_box/cosmic_web.py: TidalClassifier'), ('interpolation', 'field/cubic_box/cosmic_web.py: FieldInterpolator')])
p('F05', 'Periodic neighbour searches find exactly the true neighbours',
  'A radius search in a periodic box returns exactly the points within the radius under the minimum-image distance, once each, with their true '
  'distances, and rejects points outside the box. The cell-list search visits every point once in its cell and returns every true neighbour '
  'among its candidates, for any cell count and radius.',
  ['inputs'], 'all point sets, box sizes, query points (including boundaries), radii up to half the box and cell counts',
  'No test searches neighbours.',
  ['field/neighbor/kd_tree.py', 'field/neighbor/kd_mesh.py'],
  [('periodic kd-tree', 'field/neighbor/kd_tree.py'), ('cell lists', 'field/neighbor/kd_mesh.py')])
p('G01', 'The point-group tables are the full symmetry groups',
  'The symmetry operations of the cube and the square form a group: closed under composition, with one identity and an inverse for each element, all distinct orthogonal signed permutations, of order 48 and 8. '
  'Applying an operation to vectors or grids is the linear map of its matrix and composition is applying one after the other.',
  ['inputs'], 'all operations, pairs of operations and all vectors',
  'No test exercises the point groups.',
  ['group_theory/point_group.py'],
  [('operation tables', 'group_theory/point_group.py')])

# ---------------------------------------------------------------- numerics & statistics
p('N01', 'Interpolation and bisection bracket and reproduce correctly',
  'Bisection returns the interval whose nodes bracket the query and the nearest-node search a nearest node; interpolation reproduces the nodes, '
  'is exact for linear functions, stays between neighbouring node values and follows the documented rule outside the nodes, in one and two '
  'dimensions. The derivative at each node is the slope across its two neighbours (one-sided at the ends) and is interpolated linearly in '
  'between. Unsorted nodes are rejected where sortedness is checked.',
  ['inputs'], 'all ascending node lists, values and queries inside, on and outside the nodes',
  'No test exercises interpolation.',
  ['numerical/interpolate.py'],
  [('bisection', 'numerical/interpolate.py')])
p('S01', 'Binning puts each sample in the one bin that contains it',
  'Every sample within the range of the bins is assigned to the bin whose edges bracket it (up to rounding of equally spaced edges), and '
  'smaller or larger samples, however extreme, to the bins below the first and above the last. Equal-space and searched bins agree, nearest- '
  'edge lookup gives a nearest edge, and counts, weighted sums and overlapped histograms equal direct sums over the samples, additive over '
  'successive additions.',
  ['inputs', 'histories'], 'all edges, samples (on edges, outside, empty), weights and sequences of additions',
  'No test exercises the bins.',
  ['stats/binning.py'],
  [('locate', 'stats/binning.py: EqualSpaceBins, BiSearchBins'), ('accumulate', 'stats/binning.py: BinnedData, Hist1D')],
  [('accumulated counts', 'bin content', 'stats/binning.py: BinnedData')])
p('S02', 'Reductions equal the textbook statistics of the selected samples',
  'Counts, sums, means, standard deviations, medians, quantiles and error bars of one- and two-dimensional data equal their textbook '
  'definitions over the samples selected by the mask with the given weights (weighted quantiles interpolate the samples on the cumulative '
  'weight), row by row. They are invariant under permutation of samples, unaffected by masked-out values even if not finite, and return the '
  'fill value when no sample is selected.',
  ['inputs'], 'all arrays, masks, weights and quantile levels, including empty selections and repeated values',
  'No test exercises the reductions.',
  ['stats/reduction.py', 'stats/summary.py'],
  [('weighted reductions', 'stats/reduction.py')])
p('S03', 'Regressions equal their brute-force definitions',
  'Nearest-neighbour and local-kernel regression predict at every query the requested reduction over exactly the nearest samples, or the samples weighted by the kernel at their scaled distance, in any dimension. '
  'Predictions are invariant to the order of samples, equal the constant for constant data, move with the data under translation and scaling, and queries without enough samples are flagged as documented.',
  ['inputs'], 'all sample sets, query points, dimensions, neighbour counts, kernels and weights',
  'The regression tests only run the code on one data set and assert nothing.',
  ['stats/regression.py', 'stats/kernel.py'],
  [('knn', 'stats/regression.py'), ('kernel', 'stats/kernel.py')])
p('S04', 'Density estimates are normalised and equal their definitions',
  'Histogram, local-kernel and nearest-neighbour density estimates equal the defining sum over samples at every query, are non-negative, '
  'independent of sample order, scale inversely with volume under rescaling of coordinates, and integrate to the total weight over the range '
  'where the definition does. Kernels depend only on distance, are one at zero distance and never increase with it.',
  ['inputs'], 'all sample sets, weights, dimensions, bandwidths, neighbour counts and queries',
  'No test exercises density estimation.',
  ['stats/density_estimation.py', 'stats/kernel.py'],
  [('estimators', 'stats/density_estimation.py'), ('kernels', 'stats/kernel.py')])
p('S05', 'Random draws are reproducible and lie in their domain; resampling is faithful',
  'Equal seeds give equal sequences of draws and the generator state advances with use; draws lie in their documented domain: unit vectors have unit length, choices come from the given '
  'values, integers from the given range. Bootstrap calls the statistic on same-size resamples drawn with replacement from the input rows, keeps paired arrays paired and never alters the '
  'input; additive noise preserves shape.',
  ['inputs', 'histories'], 'all seeds, sizes, histories of draws, data sets and statistics',
  'No test exercises random numbers or sampling.',
  ['stats/random.py', 'stats/sampling.py'],
  [('seeding', 'stats/random.py: Rng'), ('resampling', 'stats/sampling.py: Bootstrap')])
p('S06', 'Data transforms are invertible and standardising',
  'Standardisation gives each feature zero mean and unit spread and its inverse recovers the data; the mapping of a sample to another '
  'distribution is monotonic, sends the sample extremes to the ends of the distribution, rejects values outside the sample range, and its '
  'inverse recovers the values inside it. Stacked summaries equal the summary of each member, and no transform changes its input.',
  ['inputs'], 'all finite data sets of one or more features with non-degenerate spread',
  'No test exercises the transforms.',
  ['stats/preprocessing.py', 'stats/prob_dist.py', 'stats/stacking.py', 'stats/summary.py'],
  [('standardise', 'stats/preprocessing.py'), ('probability transform', 'stats/prob_dist.py')])

# ---------------------------------------------------------------- astro
p('A01', 'Cosmological distances, times and densities agree with the model',
  "Distances, lookback times, ages, growth of volume and densities in the package's h-scaled units equal those of the underlying cosmological "
  'model converted to those units, for every parameter set and redshift. Redshift-of-distance and redshift-of-time are inverse to their forward '
  'relations, distances are monotonic, and a model built from parameters, a configuration file or an existing model has the same answers.',
  ['inputs', 'configurations'], 'all physical parameter sets and redshifts',
  'One test prints a few distances and asserts nothing about values.',
  ['astro/cosmology/model.py', 'astro/cosmology/param.py'],
  [('unit conversion', 'astro/cosmology/model.py'), ('inversion', 'astro/cosmology/model.py: redshifts')])
p('A02', 'Halo relations are mutually inverse and dimensionally consistent',
  'Virial radius, velocity, density and mass of a halo satisfy their defining relations at any redshift and overdensity definition, and going from mass to radius and back, or from concentration to velocity '
  'ratio and back, recovers the input. The flat-model fast path agrees with the general cosmology. Tabulated relations are '
  'reproduced at their nodes and linearly between; the packaged fluctuation amplitudes decrease with mass at the tabulated rate.',
  ['inputs', 'configurations'], 'all halo masses, redshifts, overdensities, concentrations and cosmologies',
  'No test exercises the halo relations.',
  ['astro/cosmology/halo_theory.py', 'astro/cosmology/flat_lambda_cdm_nr.py', 'astro/cosmology/model.py'],
  [('virial relations', 'astro/cosmology/halo_theory.py'), ('fast path', 'astro/cosmology/flat_lambda_cdm_nr.py')])
p('A03', 'Linear power spectra are normalised, grow and scale as defined',
  'For every cosmology the power spectrum reproduces the requested fluctuation amplitude at 8 Mpc/h, scales with the square of the growth factor with redshift and as a power law on the largest scales, and its dimensionless form is '
  'k^3 P / 2 pi^2. Transfer functions equal the published fitting formulae, tend to one at small wavenumber, and the no-wiggle form has no oscillation.',
  ['inputs', 'configurations'], 'all cosmological parameters, spectral indices, amplitudes, redshifts and wavenumbers',
  'No test exercises the power spectrum.',
  ['astro/cosmology/power_spectrum.py'],
  [('transfer functions', 'astro/cosmology/power_spectrum.py'), ('normalisation', 'astro/cosmology/power_spectrum.py')])
p('A04', 'Unit systems convert consistently',
  'A unit system built from any choice of base units gives every derived unit and constant the value fixed by the definition of the base units, '
  'so physical identities hold and conversion between two systems is multiplicative and reversible; the fast and the general unit system agree. '
  'Sexagesimal angles convert to degrees exactly, the sign of the leading part applying to all parts.',
  ['inputs', 'configurations'], 'all base-unit choices, Hubble parameters and angles',
  'One test constructs a unit system and checks nothing else.',
  ['astro/quantity/unit_system.py', 'astro/coords/cvt.py'],
  [('derived units', 'astro/quantity/unit_system.py'), ('angles', 'astro/coords/cvt.py')])
p('A05', 'Binned volume densities count each object in its volume',
  'The density per bin equals the sum over the objects in the half-open bin of the inverse of their accessible volumes divided by the bin '
  'width, so equal volumes give the count over volume and width and summing over bins recovers the total density in range. Its bootstrap mean '
  'and spread are those of the same estimate over resampled objects.',
  ['inputs'], 'all samples, weights, bins and volumes',
  'No test exercises it.',
  ['astro/stats/lss.py', 'stats/binning.py'],
  [('volume density', 'astro/stats/lss.py: BinnedVolumeDensity')])

p('A06', 'Parameter lists agree with an ordered list addressed by name or position',
  'Under any history of replacing entries and setting values, a list of named parameters agrees with an ordered list: reading by name and by position, length, iteration, values and printing all show the current entries in order. '
  'Setting all values changes each value in place without renaming, a list of the wrong length is rejected, and a name that was replaced no longer resolves.',
  ['histories', 'inputs'], 'all histories of reads, replacements and value updates on parameter lists with scalar and array values and distinct or repeated names',
  'One test only reads the parameters of a default cosmology.',
  ['astro/cosmology/param.py'],
  [('name to position map', 'astro/cosmology/param.py: ParamList.__setitem__, __getitem__'), ('in-place values', 'astro/cosmology/param.py: set_values')],
  [('entries', 'ordered parameters and their name index', 'astro/cosmology/param.py: ParamList')])

# ---------------------------------------------------------------- plotting
p('P01', 'Plot formatting accepts exactly what it knows and merges by precedence',
  'Formatting options combine with the most specific winning, unknown options are rejected with an error, and updating one formatter or runtime '
  'configuration never leaks into another or into the defaults; of runtime configurations given in sequence, a later section replaces an '
  'earlier one of the same name as a whole. A subplot layout specification yields the requested number of rows and columns with the requested '
  'sizes, ratios, margins and sharing.',
  ['inputs', 'histories', 'configurations'], 'all combinations of options and layout specifications',
  'No test exercises plotting.',
  ['plot/artist_formatter.py', 'plot/shortcut.py', 'plot/runtime_config.py', 'plot/figure.py'],
  [('formatters', 'plot/artist_formatter.py'), ('runtime configuration', 'plot/runtime_config.py')])
p('P02', 'Plot helpers draw exactly the data they were given',
  'Lines, scatters, bands, histograms and error bands drawn through the axes wrappers carry exactly the coordinates, limits and labels given, on every selected axes of an array and no others, and log-scaled helpers transform both data and errors '
  'consistently. Colours convert between specifications without changing the colour and colour sequences have the requested length and order.',
  ['inputs'], 'all data arrays, axis selections and colour specifications',
  'No test exercises plotting.',
  ['plot/axes.py', 'plot/color.py', 'plot/figure.py', 'astro/plot/shortcuts.py'],
  [('axes wrappers', 'plot/axes.py'), ('colours', 'plot/color.py')])
p('P03', 'Two-dimensional density maps enclose the requested fraction',
  'The two-dimensional histogram is a normalised density counting every in-range sample once with its weight (the last bin closed at its upper '
  'end), and its value at a point is that of the bin containing it. The level reported for a percentile is such that cells at or above it hold '
  'at least that fraction of the total and cells strictly above it no more; the neighbour-based map equals its brute-force definition.',
  ['inputs'], 'all samples, weights, ranges, bin counts and percentiles',
  'No test exercises the maps.',
  ['plot/two_dim.py'],
  [('maps', 'plot/two_dim.py')])

with open(f'{V}/properties.jsonl', 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
print(len(P), 'properties')
