"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, stmt, over, qtext, why, files, mech, state=None, obs=None):
  a = {"files": files, "mechanism": [{"name": m[0], "where": m[1]} for m in mech]}
  if state: a["state"] = [{"name": s[0], "meaning": s[1], "where": s[2]} for s in state]
  if obs: a["observe_at"] = obs
  a["hook_needed"] = None
  assert len(title) <= 80, title
  P.append({"id": id, "title": title, "statement": stmt,
            "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

OC='ocnn/octree/octree.py'; PT='ocnn/octree/points.py'; SK='ocnn/octree/shuffled_key.py'

p("C01", "Shuffled keys are a lossless, order-exact code for (x, y, z, batch)",
  "For every depth 1..16, every coordinate triple in [0, 2^depth) and every batch index below 32768 (given as a tensor, a plain integer, or omitted = 0), encoding interleaves the coordinate bits in x-y-z order below bit 48 with the batch index at bit 48, and decoding returns exactly the original coordinates and batch index. Keys of one batch element are ordered by Z-order, a larger batch index always gives a larger key, and dropping the lowest three bits of the position part gives the key of the parent cell.",
  ["inputs"], "all depths 1..16, all coordinates in range, all batch indices 0..32767, tensor / int / omitted batch, float or integer coordinates, any tensor shape",
  "The tests compare a round trip on one small grid; carries between 8- or 9-bit table chunks, the depth>8 path and large batch ids are single points in a 2^63 space.",
  [SK], [("table-driven encode/decode in 8-bit and 9-bit chunks", SK+": xyz2key, key2xyz, KeyLUT")])

p("C02", "Building an octree represents exactly the occupied cells of the cloud",
  "For any point cloud in [-1,1]^3 (boundary included, batched or not), the built octree has at the finest depth exactly the cells that contain points as non-empty nodes; below the full depth every layer consists of all 8 children of each non-empty parent, layers up to the full depth are the complete grid, and each layer is in ascending (batch, Z-order). Node counts, emptiness, and child links (rank among the non-empty nodes of the layer) agree with that set at every depth, and the returned index maps every input point to the non-empty finest node that contains it.",
  ["inputs", "configurations"], "all point multisets (duplicates, single points, boundary points, empty batch elements), all 0<=full_depth<=depth<=16, any batch size, float32/float64, any memory layout",
  "The tests build two stored shapes and one 3-point toy; set equality over all layers for arbitrary clouds, depths, and batches is never stated.",
  [OC, SK], [("bottom-up key unique / augment loop", OC+": Octree.build_octree"), ("full layers", OC+": octree_grow_full")],
  [("keys/children/nnum/nnum_nempty", "the octree layers", OC)], ["Octree.keys, children, nnum, nnum_nempty, xyzb(), batch_id(), nempty_mask()"])

p("C03", "Finest-layer signals are per-cell averages, independent of point order",
  "After a build, the k-th row of the finest-layer signals describes the k-th non-empty finest node: the mean of its points (in grid units [0,2^depth]), the mean of its features, and the unit-length direction of the sum of its normals (zero when the sum is zero). The result does not depend on the order of the input points, and absent normals or features stay absent.",
  ["inputs"], "all clouds with arbitrary multiplicities per cell, any channel count, any permutation of the points, presence or absence of each attribute, batched or not",
  "The tests compare signals on stored shapes and a toy with distinct cells; arbitrary multiplicities, cancelling normals and permutations are not explored.",
  [OC, 'ocnn/utils.py'], [("scatter_add by unique inverse, divide by counts, normalise", OC+": build_octree tail"), ("scatter helper", "ocnn/utils.py: scatter_add, broadcast")])

p("C04", "Input features and exported points are derived from the stored signals",
  "The input feature of an octree is the concatenation, in the fixed order N, D, L, P, F whatever the order or case of the letters, of the unit normals, the dot product of local offset and normal, the offset of the mean point from its cell centre in cell units, the mean point mapped to [-1,1], and the features; with all nodes requested, rows of empty nodes are zero. Converting an octree to points yields one point per non-empty finest node carrying the matching normal, feature and batch index, at the mean point (or at the cell centre for an octree without stored points), in [-1,1] or in grid units as requested.",
  ["inputs", "configurations"], "all octrees, all feature strings, both emptiness modes, rescale on/off, built / merged / predicted octrees",
  "Feature strings and export are barely exercised; point export always raised before this work and no test noticed.",
  [OC, 'ocnn/modules/modules.py'], [("feature assembly and padding", OC+": get_input_feature"), ("export", OC+": to_points"), ("module wrapper", "ocnn/modules/modules.py: InputFeature")])

p("C05", "Merging octrees is their batch-labelled disjoint union",
  "Merging octrees of equal depth and full depth produces, layer by layer, the concatenation of the inputs with element i relabelled as batch i, child links shifted so they again rank the non-empty nodes, and finest-layer signals concatenated in the same order; per-element node counts equal those of the inputs. The result is identical to building one octree from the equally batched point cloud, and the inputs are left unchanged. Octrees of differing depth or full depth are refused.",
  ["inputs", "histories"], "all lists of single-element octrees (repeats of the same object, very different sizes, previously merged-in octrees used again), any batch size",
  "One stored batch is compared; arbitrary lists, aliasing and later use of the inputs are not.",
  [OC, PT], [("merge loop with cumulative node counts", OC+": merge_octrees"), ("cumsum", "ocnn/utils.py: cumsum"), ("points merge", PT+": merge_points")])

p("C06", "Neighbour tables give exactly the adjacent cells of the same batch element",
  "For every layer, kernel shape, stride and emptiness mode, entry k of a node's neighbourhood is the index of the node of the same batch element at the k-th kernel offset (x-major order), or -1 when that cell lies outside the grid, does not exist in the layer, or (in the non-empty mode) is empty. Stride 2 yields one row per sibling group, centred on the first sibling; the non-empty mode has one row per non-empty node and indexes non-empty nodes; asking never changes later answers.",
  ["inputs", "configurations", "histories"], "all octrees (built, merged, grown), all depths 1..16, 8 kernels x 2 strides x 2 modes, any order and repetition of queries",
  "One stored neighbourhood is compared; the parent look-up-table propagation across batch and volume boundaries is not stated as a geometric fact.",
  [OC], [("parent-to-child propagation through look-up tables", OC+": construct_neigh, lut_parent, lut_child"), ("kernel selection and remapping", OC+": get_neigh, lut_kernel")],
  [("neighs", "3x3x3 table per depth", OC)])

p("C07", "Searching a layer finds a cell's index exactly when the cell exists",
  "Searching a layer by key or by in-range (x, y, z, batch) coordinates returns the position of that cell among all nodes (or among the non-empty nodes when requested) if it is present, and -1 otherwise, for any number and order of queries including repeated ones, absent batch elements, and queries beyond the last cell. Fractional coordinates address the cell that contains them.",
  ["inputs"], "all octrees, depths, both modes, all query batches incl. empty ones",
  "The test searches for keys that mostly exist in one octree.",
  [OC], [("bucketize on sorted keys", OC+": search_key, search_xyzb")])

p("C08", "Growing an octree follows exactly the split decisions of each layer",
  "Starting from a full or built octree, any sequence of split / grow steps yields the octree in which exactly the nodes with a non-zero split flag have eight children, in (batch, Z-order), with counts, emptiness and child links consistent; a freshly grown layer counts all its nodes as non-empty, and if no node is split the first node of the layer is. Layers above the one being grown are never altered, and neighbour tables of the new layer are consistent with it.",
  ["histories", "inputs"], "all interleavings of full growth, split, grow, re-split and re-grow over all flag vectors, any batch size and depths",
  "The tests grow one octree from its own occupancy; arbitrary decision histories, re-splits and the all-zero case are not covered.",
  [OC], [("split flags to child ranks", OC+": octree_split"), ("growth", OC+": octree_grow, octree_grow_full, init_octree")])

p("C09", "Column gather and its scatter are exact adjoints over the neighbourhood",
  "Gathering features over a neighbourhood returns, for every output row and kernel offset, the feature of the cell at that offset or zero if there is none; the inverse operation adds every column entry to the node it came from, with nothing lost or counted twice, and returns one row per node of the layer.",
  ["inputs", "configurations"], "all octrees, kernels, strides, emptiness modes, channel counts",
  "No direct test; conv tests exist only against files absent here.",
  ['ocnn/nn/octree2col.py'], [("gather / scatter_add by neighbour index", "ocnn/nn/octree2col.py")])

p("C10", "Octree convolution equals the dense sum over existing neighbours",
  "The convolution output at every node is the sum over kernel offsets of the feature at that offset (zero if the cell does not exist or is empty in the non-empty mode) times the offset's weight matrix, plus the bias if enabled; with stride 2 outputs live on the parent layer, one per split parent, and empty parents get zero rows when all nodes are represented. The result is the same with the direct or the buffered method and for every buffer size that holds at least one row.",
  ["inputs", "configurations"], "all octrees, 8 kernels, strides 1 and 2, both modes, direct / buffered with any max_buffer, bias on/off, channel counts, float32/float64, module and functional forms",
  "The convolution tests need data files missing here; buffer splits that do not divide the row count and their last short chunk are never hit.",
  ['ocnn/nn/octree_conv.py', 'ocnn/nn/octree2col.py'], [("buffered gemm loop", "ocnn/nn/octree_conv.py: setup, forward_gemm"), ("padding on stride 2", "ocnn/nn/octree_conv.py: OctreeConv.forward")])

p("C11", "Octree deconvolution is the exact transpose of convolution",
  "The deconvolution output at a node is the sum, over all input cells and kernel offsets that reach it, of the input feature times the transposed weight of that offset, plus the bias if enabled; with stride 2 the input lives on the parent layer (only split parents contribute) and the output on all children. The result is the same with the direct or buffered method and for every admissible buffer size.",
  ["inputs", "configurations"], "as for convolution", "Same missing data files; the transposed scatter over chunk boundaries is never exercised.",
  ['ocnn/nn/octree_conv.py', 'ocnn/nn/octree2col.py'], [("backward gemm as forward", "ocnn/nn/octree_conv.py: OctreeDeconv, backward_gemm")])

p("C12", "Gradients of (de)convolutions are the exact adjoints, for any buffer size",
  "For convolution, deconvolution and depth-wise convolution, back-propagating any output gradient yields exactly the gradients of the linear map with respect to the features, the weights and the bias, for every kernel, stride, emptiness mode and buffer size, whether only one of the inputs requires a gradient or all do, and accumulates over repeated backward passes.",
  ["inputs", "configurations"], "all octrees, kernels, strides, modes, buffer sizes, subsets of inputs requiring gradients",
  "The depth-wise test compares two implementations on one octree; weight gradients over several chunks are not covered.",
  ['ocnn/nn/octree_conv.py', 'ocnn/nn/octree_dwconv.py'], [("hand-written backward passes", "OctreeConvFunction.backward, OctreeDeconvFunction.backward, OctreeDWConvFunction.backward, weight_gemm")])

p("C13", "Depth-wise and group convolutions equal block-restricted convolutions",
  "A depth-wise convolution combines each channel only with its own per-offset weights, and a group convolution maps each contiguous block of input channels to the matching block of output channels with its own weights; both otherwise follow the convolution semantics for kernel, stride, emptiness, bias and padding, for every buffer size.",
  ["inputs", "configurations"], "all octrees, kernels, strides, modes, channel counts, group counts, buffer sizes",
  "One configuration of the depth-wise layer is compared; the group layer is untested.",
  ['ocnn/nn/octree_dwconv.py', 'ocnn/nn/octree_gconv.py'], [("einsum per chunk", "octree_dwconv.py"), ("split, per-group conv, concat", "octree_gconv.py")])

p("C14", "Max pooling and unpooling select per sibling group and invert each other",
  "Max pooling gives each split parent the channel-wise maximum over its existing children (non-empty ones in the non-empty mode) and zero rows for empty parents when all nodes are represented, with indices naming the child that attains it. Unpooling with those indices puts each value back at exactly that child and zero elsewhere.",
  ["inputs", "configurations"], "all octrees and depths whose pooled parents have at least one admissible child, both modes, negative features, ties",
  "The pooling test with max pooling needs a missing data file; negative data, padding and the non-empty mode are not covered.",
  ['ocnn/nn/octree_pool.py', 'ocnn/nn/octree_pad.py'], [("pad with -inf, view as groups of 8", "octree_max_pool"), ("index scatter", "octree_max_unpool")])

p("C15", "Average pooling and global pooling average exactly the cells they cover",
  "Average pooling returns, per output node, the mean over the kernel cells that exist (non-empty ones in the non-empty mode), on the same layer for stride 1 and on the parent layer for stride 2 with zero rows for empty parents when all nodes are represented. Global pooling returns, per batch element, the mean of that element's rows only, and zero for an element without rows.",
  ["inputs", "configurations"], "all octrees, kernels, strides, modes, batch sizes incl. elements without rows",
  "The test uses full layers only, where no cell is missing (the stride-2 padding defect stayed hidden).",
  ['ocnn/nn/octree_pool.py'], [("sparse averaging matrix", "octree_avg_pool"), ("scatter mean by batch", "octree_global_pool")])

p("C16", "Padding, un-padding and voxel conversion keep every row at its node",
  "Padding places row k at the k-th non-empty node and the pad value at every empty node; un-padding keeps exactly the rows of the non-empty nodes, so the two are inverse. Voxel conversion writes each node's row at its (batch, x, y, z) position of a dense grid and zero everywhere else.",
  ["inputs"], "all octrees, depths, channels, pad values, both modes", "Not tested directly.",
  ['ocnn/nn/octree_pad.py', 'ocnn/nn/octree2vox.py'], [("boolean mask scatter", "octree_pad, octree_depad"), ("advanced indexing", "octree2voxel")])

p("C17", "Aligning features to another octree matches cells by position and batch",
  "Aligning features from one octree to another returns, for each node of the target layer, the source row of the same cell and batch element if the source has it, and zeros otherwise, preserving the data type.",
  ["inputs"], "all pairs of octrees of the same depth (disjoint, nested, beyond each other's last key), both modes, all depths, float32/float64/integer values",
  "One stored pair is tested in one direction.",
  ['ocnn/nn/octree_align.py'], [("searchsorted with out-of-bound guard", "search_value, octree_align")])

p("C18", "Nearest interpolation and upsampling copy the value of the covering cell",
  "Nearest interpolation returns for each query point (in [0,2^depth), or in [-1,1) when rescaling) the feature of the cell that contains it in its batch element, and zero if that cell does not exist, is empty in the non-empty mode, or the point is outside the grid and bounds are checked. Nearest upsampling gives every node of the target layer the feature of its ancestor.",
  ["inputs", "configurations"], "all octrees, query sets, modes, both point scalings, single- and multi-level upsampling",
  "Tests use one stored octree; misses, empty cells and multi-level upsampling are not covered.",
  ['ocnn/nn/octree_interp.py'], [("search + masked gather", "octree_nearest_pts"), ("repeat by 8", "octree_nearest_upsample, OctreeUpsample")])

p("C19", "Linear interpolation is the trilinear mean renormalised over existing cells",
  "Linear interpolation returns for each query point the trilinearly weighted mean of the features at the surrounding cell centres of its batch element that exist, with the weights renormalised over them, and zero when none exists; no value leaks from other batch elements nor, when bounds are checked or when upsampling, from across the grid boundary. Upsampling linearly evaluates this at the target cell centres.",
  ["inputs", "configurations"], "all octrees, all query points, both modes, both scalings, single- and multi-level upsampling",
  "One stored comparison; wrap-around at the boundary was a real defect no test caught.",
  ['ocnn/nn/octree_interp.py'], [("sparse weight matrix with normalisation", "octree_linear_pts"), ("cell-centre queries", "OctreeUpsample.forward")])

p("C20", "Group and instance normalisation use the statistics of one sample only",
  "Group (and instance) normalisation maps each sample's rows, per channel group, to zero mean and unit variance using only the rows of that sample, then applies the per-channel scale and bias; a sample's output is the same alone or in any batch, and samples without rows cause no invalid values.",
  ["inputs", "configurations"], "all octrees, batch sizes, group counts, both modes, learned scale and bias",
  "The test compares one batch against torch on equal-sized full octrees.",
  ['ocnn/nn/octree_norm.py'], [("scatter mean/variance by batch", "OctreeGroupNorm.forward")])

p("C21", "Drop path drops or keeps whole samples and is the identity in evaluation",
  "In training, drop path either zeroes all rows of a sample or keeps them all, scaled by 1/keep_prob when scaling is on and unscaled otherwise; which samples are kept depends only on one random draw per batch element. In evaluation mode or with probability 0 the data is returned unchanged, and with probability 1 everything is dropped without invalid values.",
  ["inputs", "configurations"], "all octrees, batches, depths, modes, probabilities in [0,1], explicit or implicit batch ids, all random seeds",
  "One octree and one probability are tested.",
  ['ocnn/nn/octree_drop.py'], [("per-sample bernoulli mask", "OctreeDropPath.forward")])

p("C22", "Queries and layers never change their inputs or each other's results",
  "Every query and layer operation leaves the octree, the point cloud, the feature tensors, weights and query points it is given unchanged, and its result depends only on their values and not on which operations ran before or in what order. Moving, merging or exporting an octree yields objects whose later modification by split or grow does not alter the original.",
  ["histories"], "all interleavings of structure queries, gathers, convolutions, pooling, interpolation, merging and export over shared octrees, clouds and tensors",
  "Tests call each operation once on fresh objects; aliasing only shows in later calls (three such defects were found).",
  [OC, 'ocnn/nn', PT], [("clones before index remapping", OC+": get_neigh, merge_octrees"), ("fresh outputs", "ocnn/nn")])

p("C23", "A sample's result does not depend on the batch it is in or its point order",
  "For every octree operation and every network in evaluation mode, the rows belonging to a sample are the same (up to float rounding) whether the sample is processed alone or merged with any other samples in any position, and do not depend on the order of the points in its cloud.",
  ["inputs", "histories"], "all batches, positions and permutations, all layers and network families, both emptiness modes",
  "Tests never compare a merged run with separate runs of a network.",
  ['ocnn/models', 'ocnn/modules', 'ocnn/nn', OC], [("batch bits in the keys and batch-wise tables", OC)])

p("C24", "Point-cloud transforms act exactly as the stated geometry on points and normals",
  "Scaling multiplies points per axis and maps normals by the inverse scale then renormalises (uniform scale keeps normals); rotation applies the proper rotation x then y then z by the given angles to points and normals alike; translation moves only points; flipping negates exactly the named axes of both; normal orientation makes the named component non-negative by flipping the whole normal (or takes absolute values for all axes); normalisation centres the given box and scales its longest side to twice the scale.",
  ["inputs", "histories"], "all clouds, parameters and sequences of transforms, with or without normals; tensors supplied by the caller are not modified",
  "Each transform is tested once on one toy cloud; sequences, missing normals and negative or partial factors are not.",
  [PT], [("transform methods", PT+": scale, rotate, translate, flip, orient_normal, normalize")])

p("C25", "Slicing, clipping, merging and saving keep all point attributes aligned",
  "Clipping keeps exactly the points strictly inside the box shrunk by the margin, in order, and returns that mask; slicing, clipping and merging carry normals, features, labels and batch indices row by row with their points; merging concatenates in list order and labels each row with its cloud's position and size. Saving to npz stores exactly the requested present attributes, saving to xyz writes them side by side with six decimals.",
  ["inputs", "histories"], "all clouds and masks (all kept, none kept), all attribute subsets, all lists of clouds, chains of these operations",
  "One toy cloud is clipped; attribute subsets, empty results and chains are not covered.",
  [PT], [("masking and concatenation", PT+": clip, __getitem__, inbox_mask, merge_points, save")])

p("C26", "The data pipeline yields octrees consistent with the returned points and masks",
  "Transforming a sample and collating a batch produce an octree that is exactly the merge of the octrees of the returned (transformed, clipped) points, a mask that marks which original points were kept, merged points whose batch indices match list order, and all other sample entries in list order with labels as a tensor. Without distortion the transform is deterministic and repeatable on the same sample, and distortion parameters stay within their configured ranges and steps.",
  ["inputs", "configurations", "histories"], "all samples, depths, transform settings, batch lists, repeated epochs over in-memory samples, all seeds",
  "No test covers the pipeline; a second pass over the same in-memory sample used to fail.",
  ['ocnn/dataset.py', PT], [("preprocess / transform / points2octree", "ocnn/dataset.py: Transform"), ("collate", "ocnn/dataset.py: CollateBatch")])

p("C27", "Decoders grow the octree exactly by their own predicted split labels",
  "When an auto-encoder, image-to-shape or completion network decodes with octree update, the output octree is the full grid at the full depth grown layer by layer by the arg-max of the returned split logits of each layer (first node split if none is), each logit tensor has one row per node of its layer, and the predicted signal has one row per non-empty finest node and is stored as the octree's finest features. Without update the given octree is left unchanged and logits match its layers.",
  ["inputs", "histories"], "all shape codes and weights, batch sizes, depths and full depths, with and without update",
  "Decoders have no tests; the completion network could not even be constructed.",
  ['ocnn/models/autoencoder.py', 'ocnn/models/image2shape.py', 'ocnn/models/ounet.py'], [("predict, split, grow loop", "decoder()"), ("full initial octree", "init_octree")])

p("C28", "Moving octrees and point clouds between devices preserves everything",
  "Moving an octree or a point cloud to a device returns an object with the same depths, batch size, counts, layers, neighbour tables, signals, attributes and per-element counts on that device, leaving the original unchanged, and the moved object is independently usable: growing, querying or writing to it does not affect the original, whose tensors and node counts it does not share. Moving to the same device returns the same contents.",
  ["inputs", "configurations", "histories"], "all octrees and clouds in any stage of construction, any attribute subset, any target device reachable here (cpu, meta)",
  "Only one device exists in the test environment and no test moves a batched cloud.",
  [OC, PT], [("property-wise copies", OC+": Octree.to"), ("", PT+": Points.to")])

p("C29", "Blocks and networks compose octree layers at consistent depths and shapes",
  "Residual blocks (both kinds, stride 1 and 2), sequential blocks with and without checkpointing, and the classification and segmentation networks run for both emptiness modes and every supported stage count, return one row per node, sample or query point as appropriate with the configured channels, and compute the composition of their documented sub-layers at the corresponding depths, with parameters of the documented shapes (kernel volume, channel widths, bottlenecks) and nothing else; checkpointing does not change outputs or gradients.",
  ["configurations", "inputs"], "all block and network constructors' supported configurations over all octrees deep enough for them",
  "No network or block is run by a test that can pass here; two constructors/configurations always raised.",
  ['ocnn/models', 'ocnn/modules'], [("block and network definitions", "ocnn/modules/resblocks.py, modules.py, ocnn/models/*.py")])

p("C30", "Segmentation evaluation votes and scores every point exactly once per pass",
  "Evaluating a segmentation dataset accumulates, per file, the predicted class probabilities of exactly the points kept in each pass at their original positions, zero for clipped points, summed over all passes regardless of how files are batched, and saves the accumulated result in the last pass only. The reported intersection and union counts per class, shape IoU (mean over classes present in the labels) and part IoU (mean over the non-ignored classes) equal their definitions.",
  ["histories", "schedules", "inputs"], "all batchings and orders of files over any number of passes, all masks, all predictions and labels, ignore-label settings",
  "The projects have no tests.",
  ['projects/segmentation.py'], [("vote accumulation", "projects/segmentation.py: eval_step"), ("IoU", "IoU_per_shape, result_callback, model_forward")])

p("C31", "Scatter, cumulative-sum and list helpers have their documented meaning",
  "Scatter-add adds every source row into the destination row named by its index along the given axis (positive or negative), with output size given or one past the largest index, into a supplied destination if given; cumulative sum along any axis is inclusive or, when exclusive, starts with a zero slice and is one longer; grids enumerate all integer triples in x-major order, and kernel sizes are completed with their last value.",
  ["inputs"], "all shapes, axes, index vectors (empty, repeated, unsorted), supplied outputs and sizes",
  "Two fixed examples are tested.",
  ['ocnn/utils.py'], [("helpers", "ocnn/utils.py: scatter_add, broadcast, cumsum, range_grid, resize_with_last_val")])

p("C32", "Semantic label maps of the dataset readers are total and well-grouped",
  "Every raw SemanticKITTI label id (lower 16 bits, below 260) maps to the training id 1..19 of its class with the moving variants grouped with their static class, and to 0 if the class is not evaluated or unknown; instance bits in the upper half never change the class.",
  ["inputs"], "all label words", "The projects have no tests.",
  ['projects/datascts/semantic_kitti.py'], [("label table", "projects/datascts/semantic_kitti.py: get_label_map, KittiTransform.preprocess")])

P.append(json.loads('{"id": "C33", "title": "Dataset readers keep attributes row-aligned and normalise as documented", "statement": "Reading a stored sample (ply, npz, binary scan) returns exactly the requested attributes, row by row, with their values and types. Turning it into points puts every point at its documented normalised position (bounding box centred and scaled for the segmentation, scan and completion data, divided by the given scale otherwise), carries its own normals, colours, densities and labels, leaves the loaded sample unchanged so that it can be transformed again, and keeps the clipping mask in step. Shape completion returns octrees that cover exactly the returned clouds, whose noisy points stay near the input surface; colour augmentation keeps colours within the valid range.", "quantifier": {"over": ["inputs", "configurations"], "text": "all stored samples, formats and reader options"}, "why_tests_cant": "No test touches the dataset readers.", "anchors": {"files": ["projects/datascts/utils.py", "projects/datascts/scannet.py", "projects/datascts/seg_shapenet.py", "projects/datascts/ae_shapenet.py", "projects/datascts/completion.py", "projects/datascts/image2shape.py", "projects/datascts/modelnet40.py", "projects/datascts/semantic_kitti.py", "projects/tools/utils.py"], "mechanism": [{"name": "readers", "where": "ReadPly, ReadNpz, ReadFile, ReadPoints, read_file"}, {"name": "normalisation", "where": "preprocess / __call__ of the dataset transforms"}], "hook_needed": null}}'))
P.append(json.loads('{"id": "C34", "title": "Training objectives and decoded point clouds equal their definitions", "statement": "For shape reconstruction, the reported split loss and accuracy of every depth are the mean cross entropy and hit rate of the predicted logits against the emptiness of the nodes of the target octree, the regression loss is the mean squared distance to the normals and displacements of its finest non-empty nodes, and the total is their sum. Decoding yields, for every sample, one point per finest non-empty node at the cell centre displaced along the normalised predicted normal, written to the file of that sample. Classification loss and accuracy equal their definitions.", "quantifier": {"over": ["inputs"], "text": "all octrees, logits and signals"}, "why_tests_cant": "The projects have no tests.", "anchors": {"files": ["projects/autoencoder.py", "projects/completion.py", "projects/image2shape.py", "projects/classification.py"], "mechanism": [{"name": "objectives", "where": "compute_loss, model_forward, train_step, test_step"}, {"name": "decoding to points", "where": "octree2pts, eval_step"}], "hook_needed": null}}'))

TL='projects/tools/'
p("C35", "Data preparation tools convert every scan, mesh, list and prediction exactly",
  "Processing a ScanNet folder writes, for every scan without an existing output, a cloud whose points are the (optionally axis-aligned) mesh vertices, whose normals are the unit area-weighted vertex normals, whose colours are the vertex colours and whose labels are the training ids of the raw labels (20-class: label file; 200-class: last segment group containing the vertex's segment, first table row of its category; other ids become 0), plus the raw labels as text; existing outputs are left alone. Crops of a large scan are exactly the 10 m boxes at 5 m stride from its lower corner holding at least 3000 points, numbered in order, reach its upper end, and are saved with their masks. Predictions of a scan and of all its crops are added at their original rows and mapped to raw ids; the printed accuracy is the mean over files and the IoU the mean over all evaluated classes. The ModelNet, ShapeNet, KITTI, auto-encoder and image tools write, for any folder contents, exactly the documented file lists (order, splits, labels, ratios), converted clouds (values and part labels preserved), and surface samples lying on the mesh with the normal of their face, aligned and normalised if asked.",
  ["inputs", "configurations"], "all folder contents, scans, label tables, segment groups, crop layouts and numbers of crops, list contents, meshes and tool options",
  "The tools have no tests; crops beyond one digit or scans away from the origin only occur in real data.",
  [TL+'seg_scannet.py', TL+'cls_modelnet.py', TL+'seg_shapenet.py', TL+'seg_kitti.py', TL+'ae_shapenet.py', TL+'image2shape.py', TL+'utils.py'],
  [("scan conversion, crops, merging, scores", TL+"seg_scannet.py"), ("file lists and conversion", TL+"*.py")], None, ["files written by the tools"])

p("C36", "Checkpoint tools convert, list and clean up checkpoints without losing data",
  "Upgrading a legacy checkpoint yields a checkpoint with every variable exactly once under its current name: (de)convolution weights stored as (out, in * kernel) become (kernel, in, out) with the kernel size of the layer (8 for down- and upsampling layers, 27 otherwise), 1x1 convolution weights and biases become those of linear layers, everything else is unchanged; a model saved in the legacy form loads strictly after the upgrade with identical parameters, and the original file is untouched. Listing prints each variable not matching a skipped name with its shape and size and the exact total. Cleaning a log folder removes from each run's checkpoint folder all files but the second last one in name order (a single file stays), and nothing else.",
  ["inputs", "configurations"], "all checkpoints with legacy layer names, channel counts and kernel sizes; all skip lists; all folder layouts",
  "The tools have no tests and act on files that are not in the repository.",
  [TL+'upgrade_ckpt.py', TL+'parse_ckpt.py', TL+'cleanup_ckpt.py'], [("conversion", TL+"upgrade_ckpt.py"), ("clean up", TL+"cleanup_ckpt.py")], None, ["files written, removed and lines printed by the tools"])

p("C37", "Solvers assemble exactly the configured network, data set and training step",
  "For every model name (in any letter case) and configuration, a solver builds the network of that name with the configured input and output channels, stages, blocks, interpolation, emptiness mode, depths and feature, i.e. with the same parameters and outputs as constructing it directly; unknown names are rejected. Every data set yields the files of its list in order (the first `take` ones where supported) with their labels (0 if absent), file names, octrees at the configured depths and, for image data, an image of the same shape; reading is repeatable and does not change samples kept in memory; a collated batch keeps all of these in order; the octree a segmentation solver processes from a batch is the merge of the clouds' octrees at the configured depths, with all neighbour tables. Every shipped configuration is consistent (feature channels, classes, depths) and runs a training step with a finite loss and finite gradients for all parameters, a test step and an evaluation step that report the documented values and write the documented files.",
  ["configurations", "inputs"], "all model names and flag combinations, all data sets, file lists and options, all shipped configuration files",
  "The projects have no tests, need a GPU and downloaded data sets; a wrong flag only shows as lower accuracy.",
  ['projects/classification.py', 'projects/segmentation.py', 'projects/autoencoder.py', 'projects/completion.py', 'projects/image2shape.py', 'projects/datascts', 'projects/configs'],
  [("model and data set construction", "get_model / get_dataset of each solver"), ("steps", "train_step, test_step, eval_step")])

p("C38", "Malformed calls are refused and leave everything as it was",
  "A call whose arguments do not fit is refused with an exception instead of being evaluated: point clouds whose attributes disagree in row count or have the wrong number of columns or dimensions; building an octree from a cloud with another batch size; growing a full layer deeper than full_depth; neighbourhoods for a stride other than 1 and 2 or an unknown kernel; convolutions, depthwise and group convolutions, interpolations, upsampling and alignment on data whose number of rows is not the number of (non-empty) nodes of the layer, or, for convolutions, whose number of channels is not the declared one; upsampling to a coarser layer; group counts that do not divide the channels; a zero scale factor; unknown axes; unknown file types and attribute letters; channel counts that do not match the input feature. A refused call changes no octree, cloud or argument and leaves no file behind; the well-formed calls next to it (same operation, fitting arguments) always go through.",
  ["inputs"], "all shapes, layers, kernels, strides, channel counts, names and file types",
  "Unit tests call the operations with fitting arguments only; a dropped or misplaced check shows as silently wrong numbers for exactly the inputs nobody tests.",
  ['ocnn/octree/points.py', 'ocnn/octree/octree.py', 'ocnn/nn/octree_conv.py', 'ocnn/nn/octree_interp.py', 'ocnn/nn/octree_align.py', 'ocnn/nn/octree_gconv.py', 'ocnn/nn/octree_norm.py', 'projects/datascts'],
  [("cloud attributes", "Points.check_input, scale, save"), ("row and channel checks", "check_and_init, octree_nearest_pts, octree_linear_pts, octree_align"), ("names", "get_neigh, readers")])

p("C39", "Training signals flow back exactly",
  "Back-propagation through every operator, block, network and training objective yields the exact derivative of what was computed. For padding, unpadding, gathering and scattering (octree2col / col2octree), max pooling (the gradient goes to the maximum), unpooling, average and global pooling, voxelisation, alignment, nearest and linear interpolation, up-sampling and scatter_add, the gradient of the input is the transpose of the weights of the forward result, accumulated over every use of the input; group and instance normalisation differentiate through mean and variance and give the gradients of weights and bias; drop path passes the gradient with the very factor it gave to the value. Chains of such operators with skip connections compose these exactly. For the networks (LeNet, ResNet, SegNet, UNet, HRNet, AutoEncoder, OUNet, Image2Shape decoder), the residual and convolution blocks (also with checkpointing) and the losses of the training steps, the gradient of every parameter and input is the rate of change of the value, in training and evaluation mode.",
  ["inputs", "histories"], "all octrees, layers, modes, kernels, strides, channel counts, data types, chains of operators, parameters and directions",
  "Unit tests compare forward results, and gradients only of the convolutions; a detached or in-place tensor leaves every forward result right and silently stops a part of the network from learning.",
  ['ocnn/nn', 'ocnn/modules', 'ocnn/models', 'ocnn/utils.py', 'projects/segmentation.py', 'projects/classification.py', 'projects/autoencoder.py', 'projects/completion.py', 'projects/image2shape.py'],
  [("operators", "octree_pad, octree_max_pool, octree_avg_pool, octree_interp, octree_align, scatter_add"), ("skip connections", "UNet.unet_decoder, OctreeResBlock"), ("objectives", "compute_loss, model_forward")])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
  for q in P: f.write(json.dumps(q) + '\n')
print(len(P))
