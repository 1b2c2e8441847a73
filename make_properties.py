#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []


def p(id, title, statement, over, qtext, why, files, mech, state=()):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(d)


G = "e2cnn/group/"
p("P01", "Group operations satisfy the group axioms",
  "For every group offered (cyclic and dihedral of any order, SO(2), O(2)), composing elements is associative, the identity is neutral on both sides, and composing an element with its inverse on either side yields the identity. Results of composition and inversion of valid elements are again valid elements of the same group.",
  ["inputs", "configurations"], "all group orders N and all triples of elements",
  "Tests enumerate a few small orders; the laws must hold for every order and for all (also real-valued) rotation angles.",
  [G + "groups/cyclicgroup.py", G + "groups/dihedralgroup.py", G + "groups/so2group.py", G + "groups/o2group.py"],
  [("combine / inverse / identity", "CyclicGroup, DihedralGroup, SO2, O2: combine, inverse, identity, is_element, equal")])
p("P02", "Irreducible representations are homomorphisms",
  "For every group and every irreducible representation it provides, the matrix assigned to a product of two elements equals the product of their matrices, the identity is mapped to the identity matrix, and the recorded size, frequency and flip frequency describe that matrix function. This holds for every frequency, every group order and every pair of elements.",
  ["inputs", "configurations"], "all groups, orders, frequencies, pairs of elements",
  "Only a handful of frequencies and orders are sampled by tests, and continuous groups have infinitely many elements.",
  [G + "groups/cyclicgroup.py", G + "groups/dihedralgroup.py", G + "groups/so2group.py", G + "groups/o2group.py", G + "utils.py"],
  [("irrep construction", "*.irrep / build_irreps"), ("rotation/reflection matrices", "e2cnn/group/utils.py: psi, chi, psichi")])
p("P03", "A representation is its irreps conjugated by its basis change",
  "Evaluating any representation on a group element gives the block-diagonal matrix of its listed irreps on that element, in order, multiplied on the left by the change of basis and on the right by its inverse; its size is the sum of the irreps' sizes and its trace is the character. Direct sums concatenate the irreps and stack the basis changes block-diagonally in the order of the arguments, and an additional change of basis composes on the outside.",
  ["inputs", "configurations"], "all representations built from irreps, direct sums and changes of basis",
  "Tests check particular representations of particular groups.",
  [G + "representation.py", G + "group.py"],
  [("Representation constructor and call", "Representation.__init__/__call__"), ("direct sum", "directsum, direct_sum_factory"), ("basis change", "change_basis")])
p("P04", "Subgroup embeddings are consistent with the parent group",
  "For every subgroup identifier, the inclusion of the subgroup into the parent group is an injective homomorphism and the map back sends every included element to the element it came from and every element outside the subgroup to nothing. This holds for all orders, subgroup orders and reflection axes.",
  ["inputs", "configurations"], "all groups, subgroup identifiers and element pairs",
  "Tests take a few subgroup identifiers; failures appear for particular combinations of order, subgroup order and axis.",
  [G + "groups/cyclicgroup.py", G + "groups/dihedralgroup.py", G + "groups/so2group.py", G + "groups/o2group.py", G + "group.py"],
  [("subgroup maps", "*.subgroup: parent_mapping, child_mapping")])
p("P05", "Symmetry spaces act correctly on the plane and under restriction",
  "Every symmetry space acts on the plane by the matrices of its group: rotations by the element's angle and reflections about the configured axis, as a homomorphism. Restricting a space to a subgroup yields a space whose action on the plane equals the original action of the corresponding elements of the larger group.",
  ["inputs", "configurations"], "all spaces, axes, orders, subgroup identifiers, elements",
  "Tests exercise default axes and a few orders; the axis bookkeeping matters for all of them.",
  ["e2cnn/gspaces/gspace.py", "e2cnn/gspaces/r2/rot2d_on_r2.py", "e2cnn/gspaces/r2/flip2d_on_r2.py", "e2cnn/gspaces/r2/fliprot2d_on_r2.py", "e2cnn/gspaces/r2/trivial_on_r2.py"],
  [("base space action", "*._basespace_action"), ("restriction", "*.restrict")])
p("P06", "Every sampled kernel satisfies the equivariance constraint",
  "Every element of the kernel basis for a pair of irreps, sampled at any point of the plane, satisfies K(g x) = out(g) K(x) in(g)^-1 for all elements g of the symmetry group, for every group, frequency, maximum frequency or offset, and reflection axis. At the origin only the elements of frequency zero are non-zero.",
  ["inputs", "configurations"], "all pairs of irreps, basis elements, points and group elements",
  "Tests sample points, a few orders and frequencies; the constraint is an identity over all of them.",
  ["e2cnn/kernels/irreps_basis.py", "e2cnn/kernels/utils.py"],
  [("angular solutions", "R2*Solution.__init__ and .sample"), ("trigonometric matrices", "e2cnn/kernels/utils.py: psi, chi, psichi")])
p("P07", "Kernel bases are complete within the requested frequencies",
  "For each pair of irreps the kernel basis contains exactly one linearly independent solution per admissible angular frequency, phase and reflection sign: no admissible solution within the requested maximum frequency or offset is left out and none is listed twice. The reported dimension and per-element attributes describe the sampled elements in the same order.",
  ["configurations"], "all pairs of irreps and frequency limits",
  "A missing or duplicated solution for one combination of irreps leaves every equivariance test green.",
  ["e2cnn/kernels/irreps_basis.py", "e2cnn/kernels/utils.py", "e2cnn/kernels/basis.py"],
  [("frequency enumeration", "offset_iterator"), ("solution lists", "R2*Solution.__init__, __getitem__")])
p("P08", "Kernel bases of composite representations are assembled blockwise",
  "The kernel basis between two arbitrary representations places each irreps-pair solution in the block of rows and columns of that pair, conjugates by the output basis change on the left and the inverse input basis change on the right, and multiplies radial and angular profiles so that basis indices, dimensions and attributes agree with the sampled array.",
  ["inputs", "configurations"], "all pairs of representations, radial profiles and sampling points",
  "Index bookkeeping errors only show for particular multiplicities and orders of irreps.",
  ["e2cnn/kernels/steerable_basis.py", "e2cnn/kernels/basis.py", "e2cnn/kernels/r2.py"],
  [("block assembly", "SteerableKernelBasis"), ("radial times angular", "PolarBasis, GaussianRadialProfile"), ("entry points", "kernels_*_act_R2")])
p("P09", "Differential operator bases satisfy the equivariance constraint",
  "Every basis element of the equivariant differential operators, read as a matrix of homogeneous polynomials in the partial derivatives, satisfies the same equivariance constraint as the kernels for all elements of the symmetry group and every axis, and powers of the Laplacian multiply it without changing the constraint. Block assembly, basis change and attributes follow the representations like for kernels.",
  ["inputs", "configurations"], "all pairs of irreps, frequencies, axes, Laplacian powers",
  "The convolution-like tests of these operators need optional packages and few cases are sampled.",
  ["e2cnn/diffops/irreps_basis.py", "e2cnn/diffops/steerable_basis.py", "e2cnn/diffops/basis.py", "e2cnn/diffops/utils.py", "e2cnn/diffops/r2.py"],
  [("angular solutions", "R2*Solution.__init__, cheby"), ("assembly", "SteerableDiffopBasis, TensorBasis, LaplaceProfile"), ("polynomials", "diffops/utils.py")])
p("P10", "Caches never change results",
  "Whatever was constructed before, a memoised construction (groups, subgroups, representations, restrictions, kernel and operator bases, sampled bases, discretised operators) returns a value built from the arguments of the present call: two calls whose arguments differ in anything that influences the result never share a cache entry. Storing the operator cache on disk and loading it back restores exactly the stored entries.",
  ["histories", "configurations"], "all sequences of constructions",
  "A wrong key only shows when a particular second construction follows a particular first one in the same process.",
  [G + "group.py", "e2cnn/gspaces/r2/general_r2.py", "e2cnn/gspaces/gspace.py", "e2cnn/diffops/utils.py", "e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py"],
  [("memo tables", "every `if key in table` / `key not in table` lookup"), ("disk cache", "load_cache, store_cache")])
p("P11", "Equality and hashing are faithful",
  "Two groups, spaces, representations, field types, bases or basis expansions compare equal only if everything that determines their observable behaviour agrees, every object equals itself, and equal objects have equal hashes. In particular spaces with different reflection axes and bases with different axes or discretisations are different.",
  ["configurations", "histories"], "all pairs of objects",
  "Equality is consulted by type checks and by caches; a missing field shows only for the pair of configurations that differ in exactly that field.",
  [G + "groups", "e2cnn/gspaces", "e2cnn/nn/field_type.py", "e2cnn/kernels", "e2cnn/diffops", "e2cnn/nn/modules/r2_conv"],
  [("__eq__ / __hash__", "every class defining them")])
p("P12", "Field types lay out channels by field",
  "In every field type the i-th field occupies the channel interval that starts after the sizes of all preceding fields and ends after its own size; the total size, the per-channel irreps, the concatenation, selection, sorting, grouping, restriction and the overall representation all refer to that layout. Concatenating types keeps the order of the fields of both operands.",
  ["configurations"], "all lists of representations",
  "Off-by-one or ordering errors show only for particular mixtures of field sizes.",
  ["e2cnn/nn/field_type.py", "e2cnn/nn/modules/utils.py"],
  [("layout", "FieldType: size, fields_start, fields_end, irreps, representation"), ("channel index lists", "indexes_from_labels")])
p("P13", "Geometric tensor operations respect the fields",
  "Wrapping, slicing fields, splitting, concatenating, adding, scaling and transforming tagged tensors select and move whole fields: the result's data are exactly the channels of the fields in the result's type, and operations on incompatible types are rejected. Transforming by a group element acts with the type's representation on the channels and with the space's action on the plane.",
  ["inputs", "configurations"], "all field types, break points, index expressions, elements",
  "Tests use few types; errors show for particular mixtures and break points.",
  ["e2cnn/nn/geometric_tensor.py"],
  [("GeometricTensor methods", "split, __getitem__, __add__, __mul__, transform, transform_fibers, restrict"), ("tensor_directsum", "tensor_directsum")])
p("P14", "Modules accept only their input type and tag their output type",
  "Every equivariant module refuses an input whose field type differs from the one it was built for, and every tensor it returns is tagged with the output type it declares; containers refuse to chain, branch or merge modules whose types do not match.",
  ["inputs", "programs"], "all modules and all inputs",
  "A dropped check only shows when a network is wired wrongly.",
  ["e2cnn/nn/modules", "e2cnn/nn/geometric_tensor.py"],
  [("type checks", "*.forward of every EquivariantModule"), ("composition checks", "SequentialModule, MergeModule, MultipleModule, BranchingModule, ModuleList")])
p("P15", "Non-linear modules are only built on fields that support them",
  "Constructing a non-linear module on a field type fails unless every field the module acts on supports that kind of non-linearity, so no accepted configuration applies e.g. a point-wise function to a field it does not commute with. Which non-linearities a representation supports is propagated soundly through direct sums, restriction, quotients and induction.",
  ["configurations"], "all field types and modules",
  "The absence of a check is invisible to tests which use supported fields.",
  ["e2cnn/nn/modules/nonlinearities", "e2cnn/nn/modules/pooling", "e2cnn/nn/modules/dropout", "e2cnn/nn/modules/batchnormalization", "e2cnn/nn/modules/invariantmaps", G + "group.py", G + "representation.py"],
  [("constructor checks", "supported_nonlinearities tests in module constructors")])
p("P16", "Steerable filters are the weighted sum of the sampled basis",
  "The filter of a convolution or differential operator layer is, for each pair of input and output fields, the sum over that pair's basis elements of its weight times the sampled element, written to the rows and columns of exactly those fields; every weight is used for exactly one element and one pair of fields, and blocks without basis are zero.",
  ["inputs", "configurations"], "all field types, weights, filter sizes",
  "Index errors show only for interleaved or repeated representations; the convolution tests are not part of the reliable suite.",
  ["e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py", "e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py", "e2cnn/nn/modules/r2_conv/basisexpansion.py"],
  [("expansion", "BlocksBasisExpansion.forward, _expand_block"), ("single block", "SingleBlockBasisExpansion")])
p("P17", "Convolution layers apply the expanded filter with their settings",
  "A convolution, transposed convolution or differential operator layer applies exactly its expanded filter and bias with the stride, padding, padding mode, dilation, grouping and output padding it was built with; the bias is constant on the trivial sub-fields only, and filter sampling uses the configured grid, rings, widths and frequency cut-off.",
  ["inputs", "configurations"], "all layer settings and inputs",
  "Tests fix most settings at their defaults and the convolution tests are not part of the reliable suite.",
  ["e2cnn/nn/modules/r2_conv/r2convolution.py", "e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py", "e2cnn/nn/modules/r2_conv/r2diffop.py"],
  [("forward", "R2Conv.forward, R2ConvTransposed.forward, R2Diffop.forward"), ("bias", "expand_parameters"), ("sampling parameters", "compute_basis_params, get_grid_coords")])
p("P18", "Cached filters are never stale",
  "Whatever the order of training steps, mode switches and evaluations, a layer in evaluation mode uses the filter and bias expanded from its weights at the last switch to evaluation mode, and a layer in training mode expands them from the present weights at every call. Switching back to training drops the stored filter.",
  ["histories"], "all sequences of train(), eval(), parameter updates and forward()",
  "Tests follow one or two sequences of mode switches.",
  ["e2cnn/nn/modules/r2_conv/r2convolution.py", "e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py", "e2cnn/nn/modules/r2_conv/r2diffop.py"],
  [("train / forward", "R2Conv.train, R2Conv.forward and siblings")],
  [("filter, expanded_bias", "buffers holding the expanded parameters in evaluation mode", "R2Conv, R2ConvTransposed, R2Diffop")])
p("P19", "Predicted output shapes match the computed ones",
  "For every module and every input shape it accepts, the predicted output shape equals the shape of the tensor the module computes, for all kernel sizes, strides, paddings (also given as pairs), dilations, output paddings, ceil modes and target sizes.",
  ["inputs", "configurations"], "all modules, settings and input shapes",
  "Shape formulae differ only for particular residues, rectangular settings or rarely used options.",
  ["e2cnn/nn/modules"],
  [("evaluate_output_shape", "evaluate_output_shape of every EquivariantModule")])
p("P20", "Exported modules compute the same function",
  "Exporting a module in evaluation mode to a plain network yields one with the same settings and the same parameter and buffer values, so that it computes the same output on the raw tensor for every input; settings the plain network cannot express are refused rather than dropped.",
  ["inputs", "configurations"], "all exportable modules, settings and inputs",
  "Export tests use default settings.",
  ["e2cnn/nn/modules"],
  [("export", "export method of every EquivariantModule")])
p("P21", "Batch normalisation treats a field as one unit",
  "Every batch normalisation scales all channels of one field by one and the same factor computed from rotation invariant statistics of that field, shifts only what is invariant, uses the batch in training mode and the running statistics in evaluation mode, and applies to each field its own statistics whatever the order of the fields.",
  ["inputs", "configurations", "histories"], "all field types, inputs and mode sequences",
  "Tests use few field types and mostly one mode.",
  ["e2cnn/nn/modules/batchnormalization"],
  [("forward", "InnerBatchNorm, NormBatchNorm, InducedNormBatchNorm, GNormBatchNorm")])
p("P22", "Norm and gated non-linearities rescale whole fields",
  "Norm and gated non-linearities multiply all channels of one field by a single factor that depends only on the field's norm, its gate and its bias, give every gated field its own gate (none shared, none unused; gated fields of equal size take consecutive gates in their order), and keep the order of the fields. Concatenated and vector field non-linearities act on the corresponding channels of one field only.",
  ["inputs", "configurations"], "all field types, gate arrangements, inputs",
  "Interleaved field types and particular gate orders are not sampled.",
  ["e2cnn/nn/modules/nonlinearities"],
  [("forward", "forward of the nonlinearity modules")])
p("P23", "Spatial pooling uses its settings and keeps fields intact",
  "Each pooling module applies exactly the window, stride, padding, dilation, ceil mode and output size it was built with; norm pooling picks, per field, one position by the field's norm and returns all channels of the field from that position, and antialiased pooling blurs with a fixed normalised filter before subsampling.",
  ["inputs", "configurations"], "all settings, field types and inputs",
  "Tests fix most settings at default values.",
  ["e2cnn/nn/modules/pooling", "e2cnn/nn/modules/r2upsampling.py"],
  [("forward", "forward of the pooling modules and R2Upsampling")])
p("P24", "Dropout removes whole fields and is inactive in evaluation",
  "In training mode field dropout decides once per field and position whether to zero the field there, all channels of the field together, and rescales the rest by one over the keep probability; in evaluation mode every dropout module returns its input unchanged. With the in-place option the result is the same.",
  ["inputs", "configurations", "histories"], "all field types, probabilities, modes",
  "Outcomes are random and tests use few field types.",
  ["e2cnn/nn/modules/dropout"],
  [("forward", "FieldDropout, PointwiseDropout, dropout_field")])
p("P25", "Invariant maps produce one invariant channel per field",
  "Group pooling, norm pooling and induced norm pooling map each field to the maximum or norm over exactly its own channels, in the order of the fields, and declare trivial output fields of matching number.",
  ["inputs", "configurations"], "all field types and inputs",
  "Errors show only for interleaved field sizes.",
  ["e2cnn/nn/modules/invariantmaps"],
  [("forward", "GroupPooling, MaxPoolChannels, NormPool, InducedNormPool")])
p("P26", "Containers and structural modules route fields correctly",
  "Sequential, branching, merging, multiple, list, reshuffle, restriction, disentangle, identity and mask modules send each field to the declared place: applying them equals applying the parts to the selected fields and putting the results together in the declared order, with the declared input and output types.",
  ["inputs", "programs"], "all compositions, labelings and permutations",
  "Few arrangements are sampled by tests.",
  ["e2cnn/nn/modules/sequential_module.py", "e2cnn/nn/modules/branching_module.py", "e2cnn/nn/modules/merge_module.py", "e2cnn/nn/modules/multiple_module.py", "e2cnn/nn/modules/module_list.py", "e2cnn/nn/modules/reshuffle_module.py", "e2cnn/nn/modules/restriction_module.py", "e2cnn/nn/modules/disentangle_module.py", "e2cnn/nn/modules/masking_module.py", "e2cnn/nn/modules/identity_module.py"],
  [("forward and constructors", "the classes in these files")])
p("P27", "Library calls never modify their arguments",
  "No constructor or method modifies lists, dictionaries, arrays, tensors or types handed in by the caller, unless the caller asked for in-place operation or passed an output buffer; calling the same function twice with the same arguments gives the same result.",
  ["inputs", "histories"], "all public calls",
  "Tests rarely inspect or reuse their arguments after the call.",
  ["e2cnn"],
  [("effects on parameters", "every public function and method")])
p("P28", "The library leaves process-wide state alone",
  "Importing and using the library does not change process-wide settings such as print options, standard output, random seeds, warning filters or default types, and module evaluation mode involves no randomness.",
  ["histories", "programs"], "all call sequences",
  "Side effects on the process are invisible to tests of return values.",
  ["e2cnn"],
  [("calls with global effects", "every function of the package")])
p("P29", "Module state is registered and restored completely",
  "Every floating point tensor a module consults when evaluated (weights, biases, filters, statistics, masks) is registered as parameter, buffer or submodule, so saving and loading its state and moving it to another device or precision carries it along.",
  ["programs", "configurations"], "all modules",
  "Tests run on one device and seldom save and load.",
  ["e2cnn/nn/modules"],
  [("tensor attributes", "attributes assigned in the constructors of every module")])
p("P30", "Every accepted configuration supports every method",
  "If constructing an object succeeds, each of its documented methods (resetting parameters, shape prediction, string representation, export, subgroup and restriction queries) can be called for that configuration without an internal error caused by an undefined attribute, name or mismatched signature.",
  ["configurations"], "all classes, constructor options, methods",
  "Rare option/method combinations are not covered by tests.",
  ["e2cnn"],
  [("attribute and call resolution", "all classes of the package")])
p("P31", "Every constructor option takes effect",
  "Each documented option of a module, basis or space constructor influences the behaviour it is documented for: it is validated or stored and reaches the computation, and defaults equal passing the default explicitly.",
  ["configurations"], "all options of all constructors",
  "Options at their default value are indistinguishable from ignored options.",
  ["e2cnn"],
  [("data flow from parameters", "constructors and factory functions")])
p("P32", "Initialisation covers all weights with the stated variance",
  "The provided initialisation schemes write every weight of an expansion exactly once, drawing each block's weights with the variance that keeps the output variance equal to the input variance (counting the basis elements feeding an output field), and never touch other tensors.",
  ["configurations"], "all basis expansions",
  "Statistical effects on particular blocks are invisible to tests with tolerance; the initialisation test is not part of the reliable suite.",
  ["e2cnn/nn/init.py", "e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py"],
  [("initialisers", "generalized_he_init, deltaorthonormal_init, _generalized_he_init_variances")])
p("P33", "Numerical decomposition of representations is exact up to tolerance",
  "The change of basis computed numerically for regular, quotient, induced, restricted and tensor representations block-diagonalises them into the listed irreps up to numerical tolerance.",
  ["configurations"], "all groups, subgroups, representations",
  "Conditioning depends on the representation; tests sample some.",
  [G + "representation.py"],
  [("numerical solution", "compute_change_of_basis, decompose_representation, find_orthogonal_matrix")])
p("P34", "Discretised layers are equivariant up to interpolation error",
  "The output of a network on a transformed image agrees with the transformed output up to the discretisation error of the grid.",
  ["inputs"], "all images, networks and elements",
  "Error magnitudes depend on the input.",
  ["e2cnn/nn"],
  [("equivariance check", "EquivariantModule.check_equivariance")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
