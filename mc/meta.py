"""What every check covers, for the evidence files and the MANIFEST."""

CHECKS = {}


def add(prop, rule, assumptions=(), level='model_checking', device=False):
  CHECKS[prop] = {'rule': rule, 'assumptions': list(assumptions),
                  'level': level, 'device': device}


add('C01',
    'all padded inputs over batch shapes up to rank 3 (4) x all size vectors '
    '(incl. empty elements) x D in 1..4, all batch id vectors up to length 5 '
    '(7) over 3 (4) ids with and without trailing empty elements, and all '
    'size vectors of flat inputs; garbage in the padding, all coordinates '
    'distinct; one state per distinct (kind, sizes, shape, D, ids)',
    ['coordinates are an identity labelling: the code treats them as opaque '
     'values in this property', 'at least one point in the batch'])


add('C02',
    'breadth first search from 11 initial clouds (padded / batch ids / sizes, '
    'with empty elements and unsorted ids) over the alphabet {get_points, '
    'get_points(max), get_points(element), get_sizes, get_unflatten, '
    'get_unflatten(max), diameter, global pooling padded, Conv1x1 padded, '
    'set_batch_shape to every factorisation of the batch size and None, a '
    'rejected set_batch_shape}, histories up to length 4 (7), states merged '
    'only if everything the object holds is identical',
    ['operations are deterministic functions of the object state'])


add('C03',
    'all assignments of the coordinates {-2.5, 0, 0.001, 3} to up to 3 (5) '
    'points with all batch ids over 3 elements, in every axis of 1 to 4 '
    'dimensions, and all padded inputs of five batch shapes; box and diameter '
    'of orders euclidean, 1, 2, 3, inf',
    ['boxes may exceed the points by rounding (1e-6 relative)',
     'elements without points have no box and are not compared'])


_GRID_RULE = (
    'all multisets of up to 2 (3) positions of a 4x4, 3x3x3, 2^4 and 2^5 '
    'lattice, one, 3 and 16 of them per batch in three interleavings of the '
    'batch ids, with and without an empty last element, x 7 cell sizes '
    '(scalar and anisotropic, dividing the gaps or not) x {own, bigger, '
    'smaller, shifted bounding box}, plus 8 kinds of larger clouds in 2 to 5 '
    'dimensions and grids with more than 2^32 cells')
add('C04', _GRID_RULE + '; number of cells, every key decoded into element '
    'and cell, sorted arrays',
    ['points on a cell face (within rounding) may be in either cell'])
add('C05', _GRID_RULE + '; every range of the structure against every point',
    ['points on a cell face (within rounding) may be in either cell',
     'columns without points may hold any empty range'])


add('C06',
    'all multisets of up to 2 (3) positions of a 4x4, 3x3x3 and 2^4 lattice '
    '(triples in 2D as well), 1, 3, 16 or 24 per batch, in three '
    'interleavings of the ids, x 4 radii (scalar and anisotropic; gaps below, '
    'above and exactly at the radius) x cells of 1 and 1.5 radii x 5 center '
    'sets (the sorted points, the cloud itself, a copy of it, points in and on all sides '
    'outside of the box, few centers and elements without centers), and 7 '
    'kinds of larger clouds in 2 to 5 dimensions; all three id tables and '
    'ranges compared with brute force',
    ['cells are not smaller than the radius (documented precondition)',
     'pairs at the radius up to rounding are not decided, unless the distance '
     'is exactly the radius'])
add('C07',
    'as C06 on triples of points, x limits 1, 2, 3 (up to 100 on larger '
    'clouds): number of neighbors is min(limit, all), each is a neighbor, none '
    'twice, ranges consistent',
    ['which neighbors are kept is not specified'])


add('C08',
    'relation: all multisets of up to 2 positions of a 3x3 and 2^3 lattice, '
    'batches of 4, and 4 kinds of larger clouds x 4 radii x 5 center sets; '
    'histories: all sequences of length 3 and 4 (4 and 5) of {to the transpose, back to '
    'the first, compute (3 argument sets), read (3 argument sets)} on 3 '
    'neighborhoods',
    ['pairs at the radius up to rounding are skipped'])


add('C09',
    'every sequence of random draws (stateless search over all options with '
    'non-zero probability) for all batches of two multisets of up to 2 and '
    'all multisets of 3 positions of a 3x3 lattice and up to 2 of 2^3, every '
    'other one (all) x 5 radii, and clouds of up to 7 (8) points in chains '
    'and clusters x 4 radii, through 4 ways to call the sampling',
    ['the random draws of the sampling go through tf.random.categorical; '
     'with another primitive only one schedule per case is seen',
     'pairs at the radius up to rounding are skipped'])
add('C10',
    'all multisets of up to 2 (3) positions of a 4x4, 3x3x3 and 2^4 lattice, '
    '1, 3 and 16 per batch in three interleavings x 7 cell sizes x {own, '
    'bigger, smaller, shifted box} x 4 ways to call the sampling; 8 kinds of '
    'larger clouds in 2 to 5 dimensions',
    ['points on a cell face (within rounding) may be in either cell'])


add('C11',
    'all multisets of up to 2 (3) positions of a 3x3, 2^3 and up to 1 (2) of '
    'a 2^4 lattice, 1 and 6 per batch in three interleavings, 7 kinds of '
    'larger clouds x 4 radii x 3 bandwidths (scalar and anisotropic) x 5 '
    'center sets, subsampled by a fixed residue in the quick tier; densities '
    'per point, per pair, normalised, switched off, among neighbors; '
    'derivative by the coordinates',
    ['pairs at the radius up to rounding are skipped',
     'mode num_points and normalize of density_estimation are not decided'])
_SCENES = (
    'all multisets of up to 2 (3) positions of a 3x3 and 2^3 lattice, 1 and 6 '
    'per batch in three interleavings, and 5 kinds of larger clouds x 2 radii '
    'x 5 center sets (the same cloud, shifted, additional, sparse with '
    'elements without centers, centers without neighbors), the '
    'configurations in turn; two scenes with every configuration of ')
add('C12', _SCENES + '{1, 2, 4 MLPs} x 4 MLP shapes x 3 activations x 2 '
    'feature sizes x 2 bandwidths x {internal neighborhood, given, given '
    'with densities}; outputs and derivatives by points, features and all '
    'weights',
    ['pairs at the radius up to rounding are skipped'])
add('C13', _SCENES + '3 hidden sizes x 3 activations x 2 feature sizes x 2 '
    'bandwidths x 3 kinds of neighborhood argument; outputs and derivatives',
    ['transformed densities are kept away from zero by the weights chosen',
     'derivatives by the coordinates only if the largest density is unique'])
add('C14', _SCENES + '14 kernels (1 to 40 kernel points; spheres, cubes, '
    'custom) x {linear, gaussian} x 4 influence distances x 2 feature sizes x '
    '2 kinds of neighborhood argument; outputs, derivatives by features and '
    'weights',
    ['spherical kernel points are those of spherical_kernel_points (C22), '
     'under a fixed rotation'])
add('C15', _SCENES + '9 kernels x {linear, gaussian} x 4 influence distances '
    'x 2 feature sizes x 2 kinds of neighborhood argument x {zero, non-zero} '
    'offset weights; outputs, regularization loss and their derivatives; all '
    'pairs of calls on up to 8 scenes')
add('C16', _SCENES + '5 channel counts x 5 numbers of basis functions x '
    'limits of the neighborhood x center sets; outputs and derivatives')
add('C17', '10 layers x {all batch id vectors up to length 4 (5) over 3 '
    'elements, subsampled by a fixed residue in the quick tier, x 3 batch '
    'shapes; all size vectors (incl. empty elements) of 6 (8) padded batch '
    'shapes} x {flat, padded} features with garbage in the padding x 4 output '
    'layouts, to an output cloud in another order',
    ['outputs of layers are compared among the layouts; their values are the '
     'subject of C12 to C19 and C21'])
add('C18', 'all batch id vectors up to length 4 (6) over 3 elements, with '
    'and without trailing empty elements, x 3 batch shapes, all size vectors '
    'of 8 padded batch shapes; features: all assignments of {-2, -0.5, 1.25} '
    'to up to 5 points, flat and padded with low and with high values in the '
    'padding',
    ['padded outputs are requested for clouds with a batch shape only',
     'values of empty elements are not specified and not compared'])
add('C19', 'all multisets of up to 2 (3) positions of a 4x4, 2^3 (3^3, 2^4) '
    'lattice, 1 (subsampled by a fixed residue in the quick tier) and 6 per '
    'batch in three interleavings, 7 kinds of larger clouds in 2 to 5 '
    'dimensions x 5 radii (scalar and anisotropic) x 5 center sets; max and '
    'average pooling of positive, negative and mixed features',
    ['pairs at the radius up to rounding are skipped',
     'centers without neighbors are not specified and not compared'])
add('C20', 'cell average: all multisets of up to 2 (3) positions of a lattice '
    'in 2 and 3 dimensions, batches of 1 and 4; poisson: every sequence of '
    'random draws over all levels for up to 2 positions in 1 and 2 elements; '
    'larger clouds in 2 to 4 dimensions; x 5 lists of cell sizes (0 to 3 '
    'levels) x 4 ways to pass them x 3 batch shapes; points, sizes and all '
    'neighborhoods of every level compared with brute force; all accessor '
    'and batch shape histories up to length 2 and 3 (3 and 4) on three '
    'hierarchies',
    ['pairs at the radius up to rounding are skipped',
     'points on a cell face (within rounding) may be in either cell'])
add('C21', '3 networks x 6 spellings of 3 layer types x {identity, '
    'projection} shortcuts x 1, 2 (to 4) blocks x {given, own} neighborhoods '
    'x {training, inference} x 2 and 3 dimensions x radius lists, with 3 '
    'activations, flat and padded features, 3 output layouts in turn, two '
    'calls with other weights each; every call of a sublayer is recorded and '
    'matched with the documented composition, recomputed step by step',
    ['the sublayers are those of C12 to C14 and Conv1x1; their calls are '
     'identified by their input, not by name or order'])
add('C22', 'all supported numbers of kernel points, 5 unsupported ones, cubes '
    'of 1 to 5 points per side, and all triples of 14 (26) rotation angles in '
    'all quadrants and on the axes',
    ['the random angles go through tf.random.uniform; with another primitive '
     'only the angles drawn are seen'])
add('C23',
    'all tables of up to 3 x 4 (5 x 7) numerals out of 20 notations x 7 '
    'delimiters x 2 line ends x with and without a last line break x all '
    'dimensions and line limits, through both loaders; all batches of up to 4 '
    '(5) files of 1 to 3 lines x batch shapes; a file of 300 lines; rejected '
    'arguments',
    ['files hold at least one line, without empty lines'])
add('C24', 'all tuples of up to 4 (5) meshes of 3, 4 or 6 vertices, as obj '
    'and off files, x all batch shapes, with raw and typed file lists',
    ['every vertex is part of a face (the mesh library drops others)',
     'the installed trimesh asks for resolver methods the installed '
     'tensorflow_graphics does not define; the check removes the demand'])
add('C25', 'both scripts and the notebook, run in a scratch directory up to the first network '
    'layer; 1 to 4 (5) models x all batch sizes x all permutations of the '
    'models the generator can draw (chosen by the explorer) x with and '
    'without augmentation, whose draws are enumerated over 4 values; all '
    'histories of {batch i, next epoch} up to length 4 (6)',
    ['random choices go through numpy.random or tf.random'])
add('C26', 'explicit-state exploration of the cache directory: from 5 starts '
    '(missing, empty, with unrelated files) the real script is recorded by a '
    'preloaded library, interrupted after every file operation, with the '
    'last write cut at several lengths, up to 2 (4) interruptions in '
    'sequence; from every reachable directory a further run must succeed and '
    'use the data of the text files. Every record, replayed completely, has '
    'to reproduce the real directory',
    ['operations reach the disk in program order (a killed process, not a '
     'power failure)', 'one run at a time', 'file operations are those of the '
     'C library'])
add('C27', 'all pairs of 11 clouds (empty, one point, duplicates, lines, '
    'dense, far away) and triples of 6 (11) of them, batches of up to 8, in '
    'three interleavings of the ids, in 2 and 3 (1 to 4) dimensions; all '
    'results of the public API and the derivative by the features, per '
    'element, against the element alone',
    ['pairs at the radius and points on cell faces are avoided by the choice '
     'of coordinates', 'tolerance 2e-4'])
add('C28', 'one traced function per part of the API (clouds and grids, '
    'neighborhoods, densities, samplings and hierarchies, convolutions, '
    'derivatives, pooling, Poisson disk sampling, residual networks) x 7 ways '
    'to give a cloud x 2 and 3 dimensions, with every size unknown, serving '
    'size vectors of 3 elements with 0 to 3 (4) points each and two larger '
    'ones; the quick tier takes part of the ways and size vectors',
    ['coordinates keep 1e-4 from cell faces and radii, as the compiler may '
     'round differently', 'random draws are replaced by a fixed choice'])
add('C29', 'explicit-state search over call histories of 13 layers: 3 to 10 '
    'calls each (two instances of the layer, flat and padded clouds, centers, '
    'radii, bandwidths, shared neighborhoods, output layouts, a rejected '
    'call), length up to 3 (6); a state is everything the layers, clouds and '
    'neighborhoods hold. Value, derivative by the weights and the loss of the '
    'kernel points against a fresh layer on fresh clouds; clouds, '
    'neighborhoods and features must be unchanged',
    ['networks are called for inference (training updates their statistics)',
     'the density stored in a shared neighborhood is documented to be reused, '
     'so all calls with it use the same bandwidth'])
add('C30', 'all permutations of 6 batches of 4 and 5 points in 2 and 3 '
    'dimensions (quick: a third of those of 5 points; thorough: with all '
    'orders of the centers as well); all results of the public API and the '
    'derivative by the features',
    ['the order of cell average samples within an element is free'])
add('C31', 'all multisets of up to 2 (3) positions of lattices in 1 to 4 '
    'dimensions x 5 radii x 3 choices of centers x id patterns, and larger '
    'clouds in 2 to 5 dimensions',
    ['pairs at the radius up to rounding are skipped'])


add('C39', '2 scripts and the notebook x their layer types x batches of 2 and 3 (1 to 4) out of 4 '
    '(5) models of 5 to 7 points, networks of 2 (and 3) levels with few '
    'features, 3 orders of the points (quick: of a seventh of the batches); '
    'every variable of the network changed in turn; the loops with 1 to 4 (5) '
    'training and 1 to 3 (4) test models, batches of 1 and 2 (3), all patterns '
    'of right and wrong answers',
    ['cell average sampling, and no dropout in training: both draw random '
     'numbers otherwise',
     'the loop runs with a stand-in for the network, whose answers the '
     'explorer chooses', 'tolerance 2e-3'])
add('C40', 'MCConv with 4 (20) feature sizes x 2 (4) dimensions x 3 numbers '
    'of MLPs x 4 depths, PointConv with 3 hidden sizes, KPConv with 10 kernels, '
    'deformable or not; ResNet blocks: 3 kinds x 3 layer types x shortcuts x '
    '2 (4) depths x training; 60 optional arguments; all names; 11 operations '
    'x 3 forms of the features x 5 of the radius',
    ['which distribution the initial weights follow is not decided; the '
     'documented defaults of the activation of PointConv and of the '
     'initializers of PointConv and KPConv are not what the code does, and '
     'not part of the property'])
add('C41', 'scenes of a cloud, a neighborhood, a hierarchy, files (1 to 3) and '
    'each of 12 layers, in 2 and 3 (4) dimensions, over 3 batches of 1, 2 and '
    '4 elements, with and without batch shape: all histories of up to 3 (4) '
    'requests for clouds and 2 (3) for the others, of which the last is '
    'excluded, out of 7 to 17 requests; 20 to 40 excluded configurations of '
    'constructors',
    ['the type of an error is only checked where the code documents and '
     'raises it'])


# ------------------------------------------------------------- the CUDA ops

EMULATOR = [
    'the sources of the ops are compiled for an emulated device '
    '(mc/cuda): sequentially consistent atomics (weak memory is covered by '
    'the race detection only: plain accesses must be ordered by barriers), '
    'no contraction to fused multiply-add, no warp-level primitives',
    'TensorFlow is replaced by stand-ins for the parts of its C++ API that '
    'the ops use',
    'schedules which differ in the order of independent operations only are '
    'explored once (dynamic partial order reduction with sleep sets)']

add('C32', 'keys: all clouds of up to 3 (2 to 4) positions of lattices in 2 to '
    '6 dimensions x 3 grids x 1 or 3 elements, up to 300 (5000) points, keys '
    'beyond 32 bits; columns: all multisets of up to 6 (8) keys of 9 grids, '
    'up to 1000 (20000) points; each on 2 devices with all schedules and 2 '
    'fixed ones',
    EMULATOR, device=True)
add('C33', 'all clouds of up to 3 (4) positions of lattices in 2 to 6 '
    'dimensions x 4 forms of radius x with and without limit (quick tier: '
    'half of them from 3 dimensions on), all schedules of up to 5 (6) '
    'neighbors x all limits, 5 kinds of larger clouds, up to 520 (2000) '
    'points', EMULATOR + ['pairs at the radius up to rounding are skipped'],
    device=True)
add('C34', 'all clouds of up to 3 positions of lattices in 2 to 6 dimensions '
    'x 3 cell sizes x 2 modes x orders of the neighbors, all schedules; 5 '
    'kinds of larger clouds, up to 520 (3000) points',
    EMULATOR, device=True)
add('C35', 'all clouds of up to 3 (4) positions of lattices in 2 to 6 '
    'dimensions x 2 radii x 2 modes x bandwidths, 5 kinds of larger clouds, '
    'up to 257 (2500) points', EMULATOR + ['tolerance 2e-5'], device=True)
add('C36', 'all neighborhoods of up to 3 centers with up to 3 neighbors x 4 '
    'basis sizes x 6 (11) numbers of channels, all schedules; 3 (4) larger '
    'ones for each', EMULATOR + ['tolerance 1e-4'], device=True)
add('C37', 'the scan for 22 (27) sizes around multiples of its blocks, up to '
    '8193 (270001, with two levels); all ops in 2 to 6 dimensions on 7 (9) '
    'numbers of points and centers x 1 or 3 elements; 6 devices of 1 to 80 '
    'multiprocessors with forward and backward order of the blocks and '
    'threads, copies as early or as late as possible and two fillings of '
    'fresh memory',
    EMULATOR, device=True)
add('C38', 'every 3rd to 60th (1st to 10th) case of the quick tier of C03 to '
    'C24 and C28 to C31, compared with the same references, on 4 devices in '
    'turn; sizes which the ops do not support are skipped',
    EMULATOR + ['the batch size is a number, not a tensor of a traced '
                'function, as it is an attribute of an op'], device=True)
