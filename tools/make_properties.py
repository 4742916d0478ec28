"""Writes properties.jsonl. Run after editing: python3 tools/make_properties.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PC = 'pylib/pc/'
OPS = PC + 'custom_ops/custom_ops_tf.py'
OUT = []


def prop(pid, title, statement, over, text, why, files, mechanism, observe):
  OUT.append({
      'id': pid, 'title': title, 'statement': statement,
      'quantifier': {'over': over, 'text': text},
      'why_tests_cant': why,
      'anchors': {
          'files': files,
          'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
          'observe_at': observe, 'hook_needed': None}})


prop('C01', 'A point cloud returns exactly the points it was built from',
     'However a batch of point clouds is given (padded with sizes, flat with '
     'batch ids in any order, flat with sizes), asking for an element returns '
     'exactly its points in input order, and asking for all returns them zero '
     'padded in the batch shape, with the true sizes, including elements '
     'without points. Values attached to the points are laid out the same '
     'way, and indices outside of the batch are rejected.',
     ['inputs'], 'all batch shapes, size vectors, batch id vectors and '
     'dimensions up to the bounds in DESIGN.md',
     'The tests draw a few random batches in one layout; empty elements, '
     'unsorted ids, higher rank batch shapes and garbage in the padding are '
     'not combined.',
     [PC + 'PointCloud.py', PC + 'utils.py'],
     [('construction from padded or segmented input', PC + 'PointCloud.py'),
      ('get_points / get_sizes / get_unflatten', PC + 'PointCloud.py')],
     ['PointCloud.get_points', 'PointCloud.get_sizes',
      'PointCloud.get_unflatten'])

prop('C02', 'Answers of a point cloud do not depend on earlier accesses',
     'After any sequence of accesses and batch shape changes, every access to '
     'a point cloud returns what it would return on a freshly built cloud '
     'with the current batch shape. A rejected batch shape changes nothing.',
     ['histories'], 'all sequences of public operations up to the stated '
     'length, from clouds built in every way',
     'Sizes, the unflatten function and the bounding box are created lazily '
     'and cached; a test calls each once on a fresh object.',
     [PC + 'PointCloud.py', PC + 'layers/utils.py'],
     [('lazy caches and their invalidation in set_batch_shape',
       PC + 'PointCloud.py')],
     ['PointCloud public methods', 'padded outputs of layers'])

prop('C03', 'Bounding boxes are tight for every batch element',
     'The bounding box of every non-empty batch element contains all its '
     'points and no more than rounding, regardless of the other elements and '
     'of the order of the points. Its diameter is the requested norm of its '
     'extent, one value per element in the batch shape.',
     ['inputs'], 'all coordinate patterns, batch ids and norms up to the '
     'bounds', 'Tests use uniform random points in the unit cube in one batch '
     'layout.', [PC + 'PointCloud.py'],
     [('segment minimum and maximum', PC + 'PointCloud.py')],
     ['PointCloud.get_AABB', 'get_diameter'])

prop('C04', 'Grid keys name the cell and batch element every point lies in',
     'In a regular grid over a point cloud, every point has a key that '
     'decodes to its batch element and to the cell containing it (points '
     'outside of a given bounding box count to the outermost cells), for any '
     'number of cells, also beyond 32 bits, and there are just enough cells '
     'to cover the box. The sorted points, batch ids and keys are one and the '
     'same reordering of the input, by descending key.',
     ['inputs'], 'all small clouds and batches, cell sizes, bounding boxes, '
     '2 to 5 dimensions', 'Tests use random points which practically never '
     'lie on cell faces, the maximum corner or outside of the box.',
     [PC + 'Grid.py', OPS],
     [('compute_keys', OPS), ('sorting by key', PC + 'Grid.py')],
     ['Grid', 'compute_keys'])

prop('C05', 'The grid data structure lists exactly the points of a column',
     'The access structure of a grid holds, for every batch element and every '
     'column of cells in the first two dimensions, a range of the sorted '
     'points which consists of exactly the points in this column. Every point '
     'is in one range, and columns without points have empty ranges.',
     ['inputs'], 'as C04', 'Tests check random full grids in three '
     'dimensions; sparse columns, two dimensions and empty batch elements '
     'are not reached.', [PC + 'Grid.py', OPS],
     [('build_grid_ds', OPS)], ['Grid.get_DS', 'build_grid_ds'])

prop('C06', 'Neighborhoods hold exactly the pairs closer than the radius',
     'For every center point, the neighborhood lists exactly the points of '
     'the same batch element whose distance, measured in units of the radius '
     'per dimension, is below one, each once, grouped by center with the '
     'stated ranges, and consistently with respect to the input points and '
     'to the sorted points. This holds for centers anywhere, including '
     'outside of the bounding box, and for any cell size not below the '
     'radius.',
     ['inputs'], 'all small clouds and center sets, batches, radii, cell '
     'sizes, 2 to 5 dimensions', 'Tests compare random isotropic '
     'configurations with centers inside of the box.',
     [PC + 'Neighborhood.py', OPS],
     [('find_neighbors', OPS), ('compute_neighborhoods and Neighborhood',
                                PC + 'Neighborhood.py')],
     ['Neighborhood', 'compute_neighborhoods'])

prop('C07', 'max_neighbors bounds every neighborhood and drops nothing else',
     'With a maximum number of neighbors k, every center has min(k, number of '
     'points within the radius) neighbors, all of them within the radius and '
     'in the same batch element, none twice. Ranges and id tables describe '
     'the limited neighborhoods.',
     ['inputs'], 'as C06, for all limits around the actual sizes',
     'No test sets a limit.', [PC + 'Neighborhood.py', OPS],
     [('limit in find_neighbors', OPS)], ['Neighborhood'])

prop('C08', 'Transposed neighborhoods and cached densities stay consistent',
     'The transpose of a neighborhood relates exactly the same pairs of '
     'points with the roles of center and neighbor exchanged. In any sequence '
     'of transposing, computing and reading densities on a neighborhood, a '
     'read returns the density of the last computation (or of its own '
     'arguments, if there was none), and the neighbor tables never change.',
     ['inputs', 'histories'], 'all small cloud pairs and all operation '
     'sequences up to the stated length', 'The only test transposes one '
     'random neighborhood once.', [PC + 'Neighborhood.py'],
     [('Neighborhood.transpose, compute_pdf, get_pdf',
       PC + 'Neighborhood.py')], ['Neighborhood'])

prop('C09', 'Poisson disk samples are separated and cover, for any choices',
     'Whatever random choices are made, Poisson disk sampling terminates and '
     'returns points of the input in their own batch element, none twice, no '
     'two of them in an element closer than the radius, and such that every '
     'input point is closer than the radius to a sample. Returned ids name '
     'exactly the sampled points, and the batch size is kept.',
     ['inputs', 'schedules'], 'all sequences of random choices for all small '
     'clouds', 'A test sees one sequence of random draws and checks the '
     'minimum distance only.', [PC + 'sampling.py', OPS],
     [('sampling loop', OPS), ('poisson_disk_sampling, sample',
                              PC + 'sampling.py')],
     ['poisson_disk_sampling', 'sample'])

prop('C10', 'Cell average sampling returns the mean of every occupied cell',
     'Cell average sampling returns, for every batch element, one point per '
     'occupied grid cell, which is the mean of the points of this element in '
     'this cell, labelled with the right batch element. The batch size is '
     'kept.', ['inputs'], 'all small clouds, batches, cell sizes',
     'Tests use random clouds of equal sizes.', [PC + 'sampling.py', OPS],
     [('cell average', OPS)], ['cell_average_sampling', 'sample'])

prop('C11', 'Densities equal the kernel density estimate of the definition',
     'The density of a point is the sum of the Gaussian kernel (bandwidth '
     'relative to the radius, per dimension) over the points of the same '
     'batch element within the radius, divided by the product of the '
     'bandwidths, in the order of the input or neighbor pairs, divided by the '
     'neighborhood size if normalised pairs are asked for, and one without '
     'density estimation. Its derivative with respect to the coordinates is '
     'that of this sum.',
     ['inputs'], 'all small clouds, batches, radii and bandwidths per '
     'dimension', 'Tests use random points with one isotropic radius and one '
     'bandwidth in three dimensions.', [PC + 'Neighborhood.py', OPS],
     [('compute_pdf', OPS), ('density_estimation and variants',
                             PC + 'Neighborhood.py')],
     ['density_estimation', 'density_estimation_in_neighborhoods',
      'Neighborhood.get_pdf', 'compute_pdf_inside_neighborhoods'])

prop('C12', 'MCConv computes the Monte-Carlo convolution of its definition',
     'For every input, the output of MCConv at a center is the sum over its '
     'neighbors of feature times kernel MLP at the relative position in units '
     'of the radius, divided by the density of the neighbor, with each output '
     'group produced by its own MLP, and its derivatives are those of this '
     'sum. Centers without neighbors get zero.',
     ['inputs', 'configurations'], 'all small cloud pairs and layer '
     'configurations', 'Tests use one random cloud per parameter and share '
     'code paths (return layout, one batch layout).',
     [PC + 'layers/MCConv.py'], [('MCConv', PC + 'layers/MCConv.py')],
     ['MCConv'])

prop('C13', 'PointConv computes the convolution of its definition',
     'For every input, the output of PointConv at a center is the sum over '
     'its neighbors of feature times kernel MLP at the relative position, '
     'divided by the transformed density relative to the largest density in '
     'the neighborhood, times the weights, and its derivatives are those of '
     'this sum. Centers without neighbors get zero.',
     ['inputs', 'configurations'], 'all small cloud pairs and layer '
     'configurations', 'as C12', [PC + 'layers/PointConv.py'],
     [('PointConv', PC + 'layers/PointConv.py')], ['PointConv'])

prop('C14', 'Rigid KPConv computes the convolution of its definition',
     'For every input, the output of a rigid KPConv at a center is the sum '
     'over its neighbors and kernel points of the influence (linear or '
     'Gaussian) of the kernel point at the relative position times feature '
     'times weights, with kernel points at 0.75 radii (or the given ones '
     'scaled by 0.75) and influence distance as given or radius / 2.5, for '
     'any number of kernel points. Centers without neighbors get zero.',
     ['inputs', 'configurations'], 'all small cloud pairs, kernel sizes, '
     'interpolations', 'Tests reuse the layer’s own kernel points and '
     'influence distance as oracle.', [PC + 'layers/KPConv.py'],
     [('KPConv', PC + 'layers/KPConv.py')], ['KPConv'])

prop('C15', 'Deformable KPConv moves kernel points by its offset network',
     'For every input, a deformable KPConv shifts the kernel points of each '
     'center by the offsets a rigid KPConv with the offset weights predicts '
     'there, and otherwise computes the convolution of its definition; with '
     'zero offset weights it equals the rigid layer. The regularization loss '
     'is the fitting plus the repulsive term for the last call.',
     ['inputs', 'configurations'], 'as C14, and calls in sequence',
     'Only the shape of the output is tested.', [PC + 'layers/KPConv.py'],
     [('deformable KPConv', PC + 'layers/KPConv.py')],
     ['KPConv', 'KPConv.regularization_loss'])

prop('C16', 'Basis aggregation sums feature times basis per center',
     'The aggregation primitive returns for every center, feature channel and '
     'basis the sum over exactly the neighbors of this center of feature '
     'times basis value, zero without neighbors. Its derivatives with respect '
     'to features and basis are those of this sum.',
     ['inputs'], 'all neighborhood structures up to the bounds',
     'Tests use one dense random neighborhood.', [OPS],
     [('basis_proj', OPS)], ['basis_proj'])

prop('C17', 'Layers accept and return features in every documented layout',
     'For every layer, padded and flat input features give the same result, '
     'and the output in flat, sorted and padded layout holds the same row for '
     'the same point: flat follows the points of the output cloud, sorted '
     'groups them by batch element, padded is the zero padded batch shape. '
     'This holds for any order of batch ids and any sizes.',
     ['inputs', 'configurations'], 'all layers x layouts x batch layouts',
     'Tests use sorted ids only, for which mixing up the layouts has no '
     'effect.', [PC + 'layers/utils.py', PC + 'utils.py', PC + 'layers'],
     [('feature flattening', PC + 'utils.py'),
      ('output formatting', PC + 'layers/utils.py')],
     ['Conv1x1', 'MCConv', 'PointConv', 'KPConv', 'pooling'])

prop('C18', 'Global pooling aggregates exactly each element’s own points',
     'Global max and average pooling return for every batch element the '
     'maximum or mean over exactly its own points, never the padding or other '
     'elements, as a flat batch or in the batch shape, in the type and with '
     'the precision of the features.',
     ['inputs'], 'all batch layouts, feature patterns incl. all-negative',
     'Random positive features hide padding zeros in a maximum.',
     [PC + 'layers/Pooling.py'], [('GlobalMaxPooling, GlobalAveragePooling',
                                   PC + 'layers/Pooling.py')],
     ['GlobalMaxPooling', 'GlobalAveragePooling'])

prop('C19', 'Local pooling aggregates exactly the points within the radius',
     'Local max and average pooling return for every output point that has '
     'neighbors the maximum or mean over the features of exactly the input '
     'points of its batch element within the radius (per dimension).',
     ['inputs'], 'all small cloud pairs, radii, batch layouts',
     'Tests pool between random clouds with one radius.',
     [PC + 'layers/Pooling.py'], [('MaxPooling, AveragePooling',
                                   PC + 'layers/Pooling.py')],
     ['MaxPooling', 'AveragePooling'])

prop('C20', 'Every level of a hierarchy is the sampling of the level before',
     'Level i+1 of a point hierarchy is the chosen sampling of level i with '
     'the i-th cell sizes, for every element of the batch, in the batch shape '
     'of the input; neighborhood i relates exactly the points of level i '
     'within the i-th radius to the points of level i+1, and its transpose '
     'the reverse. All accessors agree on this in any order of use, also '
     'after changing the batch shape.',
     ['inputs', 'histories'], 'all small clouds, cell size lists, sampling '
     'modes, accessor sequences', 'No test constructs a PointHierarchy.',
     [PC + 'PointHierarchy.py'], [('PointHierarchy',
                                   PC + 'PointHierarchy.py')],
     ['PointHierarchy'])

prop('C21', 'ResNet blocks compose their layers as documented',
     'The residual networks compute, for every configuration, block by block '
     'the skip connection (projected if asked for) plus the chain of batch '
     'norm, activation and (1x1, point cloud, down- and upsampling) '
     'convolutions, on the given or internally computed neighborhoods.',
     ['inputs', 'configurations'], 'all layer types x shortcuts x numbers of '
     'blocks x neighborhood arguments', 'The network blocks have no tests.',
     [PC + 'layers/network_blocks.py'],
     [('PointResNet, PointResNetBottleNeck, PointResNetSpatialBottleNeck',
       PC + 'layers/network_blocks.py')],
     ['PointResNet', 'PointResNetBottleNeck', 'PointResNetSpatialBottleNeck'])

prop('C22', 'Kernel points are distinct, in the unit sphere, rotated rigidly',
     'Spherical kernel points consist of the center and the requested number '
     'of distinct points within the unit sphere which sum to the center, with '
     'the symmetry of the documented solid; rotations keep all mutual '
     'distances and the orientation for every random angle. Cube kernel '
     'points are the regular lattice in the unit cube.',
     ['inputs', 'configurations'], 'all sizes, a lattice of rotation angles '
     'that contains every quadrant and axis', 'No test looks at the points.',
     [PC + 'layers/utils.py'], [('spherical_kernel_points, random_rotation, '
                                 'cube_kernel_points',
                                 PC + 'layers/utils.py')],
     ['spherical_kernel_points', 'random_rotation', 'cube_kernel_points'])

prop('C23', 'ASCII loaders return every number of every line',
     'Loading a text file returns one point per line with its first D numbers '
     'as coordinates and the rest as features, in order and unchanged, for '
     'any delimiter, number of columns, with and without a final line break, '
     'and limited to the first lines if asked for. A batch is zero padded to '
     'the longest file in the requested batch shape, with the true sizes.',
     ['inputs'], 'all small tables x delimiters x line ends x dimensions x '
     'limits', 'Only files of one format with a final newline exist in the '
     'repository.', ['pylib/io/points.py'],
     [('load_points_from_file_to_tensor / _to_numpy, load_batch_of_points',
       'pylib/io/points.py')],
     ['pylib.io'])

prop('C24', 'Mesh batches hold the vertices of every mesh in order',
     'Loading a batch of mesh files returns the vertices of every file in '
     'order, zero padded to the largest in the requested batch shape, with '
     'the true sizes.', ['inputs'], 'all tuples of small meshes and batch '
     'shapes', 'One test loads large meshes of the repository.',
     ['pylib/io/points.py'], [('load_batch_of_meshes', 'pylib/io/points.py')],
     ['load_batch_of_meshes'])

prop('C25', 'The data generator serves every model once per epoch',
     'For every number of models and batch size, the batches of an epoch of '
     'the ModelNet data generators hold distinct models, each with its own '
     'label and its own first points, as many batches as fit; augmentation '
     'only scales each axis of a model by 0.9 to 1.1, and a new epoch starts '
     'over in a new order.',
     ['inputs', 'schedules', 'histories'], 'all permutations, batch sizes, '
     'access sequences up to the bounds', 'The scripts have no tests.',
     ['modelnet40.py', 'modelnet40_small.py', 'pylib/notebooks/ModelNet40.ipynb'],
     [('modelnet_data_generator', 'modelnet40.py, modelnet40_small.py, '
      'pylib/notebooks/ModelNet40.ipynb')],
     ['modelnet_data_generator'])

prop('C26', 'An interrupted data conversion never corrupts later runs',
     'If a run of the ModelNet scripts dies at any point while it converts '
     'the data set, the next run works and uses exactly the data of the '
     'original files. Later runs use the same data as the first.',
     ['crash_points', 'histories'], 'all prefixes of the file operations of '
     'the conversion, with the last write torn at every boundary tried',
     'The scripts have no tests, and a test cannot stop at every write.',
     ['modelnet40.py', 'modelnet40_small.py'],
     [('hdf5 cache files', 'modelnet40.py, modelnet40_small.py')],
     ['the arrays handed to the training code'])

prop('C27', 'Elements of a batch do not influence each other',
     'Processing several point clouds in one batch gives for each of them '
     'what processing it alone gives: neighborhoods, densities, cell average '
     'samples, hierarchies, convolutions and pooling, whatever the other '
     'elements are and wherever they lie.',
     ['inputs'], 'all pairs and triples of clouds from an alphabet of shapes '
     'and positions', 'Tests compare with formulas on one random batch, in '
     'which all elements fill the same cube.', [PC],
     [('batch ids in keys, neighbor search, aggregation', OPS)],
     ['public API of pylib.pc'])

prop('C28', 'Graph mode computes what eager mode computes',
     'Inside a compiled function with unknown numbers of points, the '
     'construction of clouds, grids, neighborhoods, samplings, hierarchies '
     'and all layers gives the same results as in eager mode, for every input '
     'served by the one compiled function.',
     ['inputs', 'configurations'], 'all small batches through one traced '
     'function', 'All tests run eagerly.', [PC],
     [('graph mode variants of shapes and conditions', PC)],
     ['tf.function over public API of pylib.pc'])

prop('C29', 'Layers keep nothing from earlier calls',
     'Calling a layer gives the result a fresh layer with the same weights '
     'gives, whatever it was called with before (other clouds, radii, '
     'bandwidths, neighborhoods, layouts).',
     ['histories'], 'all call sequences up to the stated length',
     'Tests call a layer once.', [PC + 'layers'],
     [('layer state', PC + 'layers')],
     ['MCConv', 'PointConv', 'KPConv', 'pooling', 'Conv1x1'])

prop('C30', 'The order of the points in the input does not matter',
     'Permuting the input points (with ids and features) permutes the '
     'results of neighborhoods, densities, cell average sampling, '
     'convolutions and pooling accordingly and changes nothing else.',
     ['inputs'], 'all permutations of small batches',
     'Tests use the order the points were generated in.', [PC],
     [('sorting and its inverse', PC + 'Grid.py')],
     ['public API of pylib.pc'])

prop('C31', 'Neighbor search without a grid equals the definition',
     'The neighbor search without a grid lists exactly the pairs of the same '
     'batch element with distance up to the radius, grouped by center, with '
     'ranges ending after the neighbors of each center, also for centers '
     'without neighbors.', ['inputs'], 'as C06',
     'Used as an oracle in tests, where every center has neighbors.', [OPS],
     [('find_neighbors_no_grid', OPS)], ['find_neighbors_no_grid'])

# the CUDA ops, see mc/cuda
CUDA = 'custom_ops/tfg_custom_ops/'
NOTEST = 'The tests of the ops need a GPU and compiled ops, which are not ' \
    'here; on a GPU the schedule is not under control of a test.'


def ops(folder):
  out = []
  for part, ending in (('ops', '.cpp'), ('kernels', '.cu.cc')):
    path = CUDA + folder + '/cc/' + part
    out += [path + '/' + n for n in sorted(os.listdir('/repo/' + path))
            if n.endswith(ending)]
  return out


prop('C32', 'CUDA grid ops compute the right keys and columns on every schedule',
     'The custom ops for grids (CUDA) agree with the definition for every '
     'number of dimensions they support, on every schedule of their threads '
     'and every size of the device: the key of a point names its batch '
     'element and cell, also beyond 32 bits, and the access structure lists '
     'for every column of cells of every element where its points begin and '
     'end, and an empty range for columns without points.',
     ['inputs', 'schedules'], 'all small clouds and sets of keys in 2 to 6 '
     'dimensions, all schedules of the atomic operations', NOTEST,
     ops('compute_keys') + ops('build_grid_ds'),
     [('ComputeKeys, BuildGridDs', CUDA + 'compute_keys/cc')],
     ['ComputeKeys', 'BuildGridDs'])

prop('C33', 'The CUDA neighbor search finds exactly the pairs in the radius',
     'The custom op which finds neighbors (CUDA) lists every pair of a center '
     'and a point of the same batch element within the radius once, grouped '
     'by center, with ranges ending after the neighbors of each center. With '
     'a maximum number of neighbors it lists that many different ones of '
     'them, or all if there are fewer. This holds for every number of '
     'dimensions, on every schedule of the threads and size of the device.',
     ['inputs', 'schedules'], 'all small clouds and centers in 2 to 6 '
     'dimensions, limits, all schedules of the atomic operations', NOTEST,
     ops('find_neighbors'),
     [('FindNeighbors: cell ranges, counting, scan, storing',
       CUDA + 'find_neighbors/cc'), ('scan', CUDA + 'find_neighbors/cc/kernels')],
     ['FindNeighbors'])

prop('C34', 'The CUDA sampling op keeps its promises on every schedule',
     'The custom op which samples points (CUDA) returns, in Poisson disk '
     'mode, points of the cloud with their batch ids and indices, none twice, '
     'no two of them neighbors, and every point has a sample among its '
     'neighbors; in average mode one point per cell which is not empty, the '
     'mean of its points. This holds on every schedule of the threads and '
     'size of the device.',
     ['inputs', 'schedules'], 'all small clouds in 2 to 6 dimensions, all '
     'schedules of the atomic operations', NOTEST,
     ops('sampling'),
     [('Sampling: phases over cells', CUDA + 'sampling/cc')], ['Sampling'])

prop('C35', 'CUDA density estimation and its derivative equal the definition',
     'The custom ops for densities (CUDA) sum the Gaussian kernel over the '
     'neighbors of every point, with the given bandwidth or with one from the '
     'number of points, and return the exact derivative by the points. This '
     'holds for every number of dimensions, on every schedule of the threads '
     'and size of the device.',
     ['inputs', 'schedules'], 'all small clouds in 2 to 6 dimensions, all '
     'schedules of the atomic operations', NOTEST,
     ops('compute_pdf'),
     [('ComputePdfWithPtGrads, ComputePdfPtGrads', CUDA + 'compute_pdf/cc')],
     ['ComputePdfWithPtGrads', 'ComputePdfPtGrads'])

prop('C36', 'CUDA feature aggregation and its derivatives equal the definition',
     'The custom op which multiplies features with basis functions and sums '
     'over neighborhoods (CUDA) equals the definition for every supported '
     'number of basis functions and any number of features, also for centers '
     'without neighbors, and so do its derivatives by features and basis '
     'functions, on every schedule of the threads and size of the device.',
     ['inputs', 'schedules'], 'all neighborhoods of few points, all basis '
     'sizes, many numbers of channels, all schedules of the atomic operations',
     NOTEST, ops('basis_proj'),
     [('BasisProj, BasisProjGrads', CUDA + 'basis_proj/cc')],
     ['BasisProj', 'BasisProjGrads'])

prop('C37', 'CUDA ops are free of races and memory errors on every device',
     'No custom op (CUDA) has a data race between threads of a launch, reads '
     'or writes outside of a buffer, reads what was not written, uses a '
     'buffer after its release or a host buffer while a copy is pending, or '
     'lets threads of a block miss a barrier. On devices of any number of '
     'multiprocessors, and inputs of any size, also larger than a launch, the '
     'results agree.',
     ['inputs', 'schedules'], 'all ops, input sizes around all block sizes, '
     'devices of 1 to 80 multiprocessors, lazy and eager copies', NOTEST,
     [CUDA + 'find_neighbors/cc/kernels/scan_alg_kernels.cu.cc',
      CUDA + 'basis_proj/cc/kernels/basis_proj_kernels.cu.cc'],
     [('scan over several blocks and levels',
       CUDA + 'find_neighbors/cc/kernels')],
     ['all ops'])

prop('C38', 'The library keeps its promises when the custom ops are installed',
     'With the custom ops (CUDA) installed, grids, neighborhoods, densities, '
     'samplings, hierarchies, pooling and convolutions of the library return '
     'what the definitions say, as they do without: the library passes the '
     'right arguments in the right form, for any number of kernel points and '
     'features, and derivatives reach all inputs.',
     ['inputs', 'histories'], 'the spaces of C03 to C24 and C28 to C31, with '
     'the ops on an emulated device', 'The stable tests only use the '
     'implementation without custom ops.',
     [PC + 'custom_ops/custom_ops_wrapper.py', PC + 'layers/KPConv.py',
      PC + 'layers/MCConv.py'],
     [('wrappers and their gradients',
       PC + 'custom_ops/custom_ops_wrapper.py'),
      ('padding of the basis', PC + 'layers/KPConv.py')],
     ['public API with CUSTOM ops'])

prop('C39', 'The example networks classify every model on its own, and learn',
     'In inference, the logits which the networks of the ModelNet scripts '
     'and notebook return for a model depend on its points only: not on their order, the '
     'padding, the other models of the batch, the position in the batch or '
     'earlier calls. All weights which influence the result are trained. The '
     'training loop presents every training batch once per epoch in training '
     'mode and updates the weights by the gradient of the cross entropy, then '
     'every test batch in inference mode without any update, and prints the '
     'mean loss and the share of correctly classified models of both.',
     ['inputs', 'histories'], 'all batches of a pool of models, all layer '
     'types, all patterns of right and wrong answers',
     'The scripts have no tests; they run for hours on a data set which is '
     'not here.', 
     ['modelnet40.py', 'modelnet40_small.py', 'pylib/notebooks/ModelNet40.ipynb'],
     [('mymodel', 'modelnet40.py, modelnet40_small.py, '
      'pylib/notebooks/ModelNet40.ipynb'),
      ('training', 'modelnet40.py, modelnet40_small.py, '
      'pylib/notebooks/ModelNet40.ipynb')],
     ['mymodel.__call__', 'training'])

prop('C40', 'Layers start as configured and train everything they own',
     'For every configuration of the convolution layers, 1x1 convolutions and '
     'ResNet blocks: the layer owns exactly the weights and biases of its '
     'definition, all of them trained and shared with no other layer; the '
     'given initializers (by default: random weights, zero biases) provide '
     'their initial values, and each of them influences the output. Leaving '
     'out an optional argument is the same as passing its documented default, '
     'other values have an effect; all documented names of layer types, '
     'activations and sampling methods select what they name; numbers can be '
     'given as Python numbers, arrays of either precision or tensors.',
     ['inputs'], 'all configurations within the bounds, all optional '
     'arguments, all names, all forms of features and radii',
     'The tests construct the layers with one or two configurations each.',
     [PC + 'layers/MCConv.py', PC + 'layers/KPConv.py',
      PC + 'layers/PointConv.py', PC + 'layers/Conv1x1.py',
      PC + 'layers/network_blocks.py'],
     [('MCConv.__init__', PC + 'layers/MCConv.py'),
      ('KPConv.__init__', PC + 'layers/KPConv.py'),
      ('PointConv.__init__', PC + 'layers/PointConv.py'),
      ('PointResNet*.__init__', PC + 'layers/network_blocks.py')],
     ['MCConv', 'KPConv', 'PointConv', 'Conv1x1', 'PointResNet*',
      'PointHierarchy', 'sample', 'compute_pdf'])

prop('C41', 'Excluded requests are refused, and leave no trace',
     'A request which the documentation excludes raises an error, whatever was '
     'asked before: points without ids or sizes, or with another number of '
     'ids; elements outside of the batch and batch shapes of another size; '
     'sampling without radius, cell size, neighborhood or grid; unknown '
     'sampling modes, interpolations and layer types; sizes, radii or '
     'bandwidths of another dimension; features of another number of points '
     'or channels; numbers of output features which the MLPs do not divide; '
     'numbers of kernel points or dimensions without a default arrangement; '
     'files which do not exist, names which are no strings, and batch shapes '
     'which do not fit the files. Afterwards all objects answer as if it had '
     'not been made.',
     ['inputs', 'histories'], 'all histories of excluded and proper requests '
     'up to the bounds',
     'Four tests make one excluded request each, on an object that is thrown '
     'away afterwards.',
     [PC + 'PointCloud.py', PC + 'PointHierarchy.py', PC + 'sampling.py',
      PC + 'utils.py', PC + 'layers/MCConv.py', PC + 'layers/KPConv.py',
      PC + 'layers/PointConv.py', PC + 'layers/utils.py',
      PC + 'layers/network_blocks.py', 'pylib/io/points.py'],
     [('check_valid_point_cloud_input', PC + 'utils.py'),
      ('_flatten_features', PC + 'utils.py'),
      ('set_batch_shape', PC + 'PointCloud.py'),
      ('load_points_from_file_to_tensor', 'pylib/io/points.py')],
     ['PointCloud', 'PointHierarchy', 'sample', 'layers', 'loaders'])

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
  for p in OUT:
    assert len(p['title']) <= 80, p['title']
    f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(OUT), 'properties')
