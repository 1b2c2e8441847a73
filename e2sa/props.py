"""Which entry points carry which property.  A pattern is matched against the qualified name without
the leading 'e2cnn.'; `aspects` selects the parts of the observation that belong to the property."""
import fnmatch

ALL = ("ret", "attrs", "fails", "effects", "defaults")

GROUPS = ("group.groups.cyclicgroup.CyclicGroup", "group.groups.dihedralgroup.DihedralGroup", "group.groups.so2group.SO2", "group.groups.o2group.O2")
SPACES = ("gspaces.r2.flip2d_on_r2.Flip2dOnR2", "gspaces.r2.fliprot2d_on_r2.FlipRot2dOnR2", "gspaces.r2.rot2d_on_r2.Rot2dOnR2", "gspaces.r2.trivial_on_r2.TrivialOnR2")
KSOL = tuple("kernels.irreps_basis." + x for x in ("R2ContinuousRotationsSolution", "R2DiscreteRotationsSolution", "R2FlipsContinuousRotationsSolution", "R2FlipsDiscreteRotationsSolution", "R2FlipsSolution"))
DSOL = tuple(x.replace("kernels", "diffops") for x in KSOL)
CONVS = ("nn.modules.r2_conv.r2convolution.R2Conv", "nn.modules.r2_conv.r2_transposed_convolution.R2ConvTransposed", "nn.modules.r2_conv.r2diffop.R2Diffop")
STRUCT = ("sequential_module", "branching_module", "merge_module", "multiple_module", "module_list", "reshuffle_module", "restriction_module", "disentangle_module", "masking_module", "identity_module")


def x(cs, ms):
    return [f"{c}.{m}" for c in cs for m in ms]


ANCHORS = {
    "P01": [(x(GROUPS, ("combine", "inverse", "equal", "is_element", "testing_elements", "order", "__init__")) + ["group.utils.cycle_isclose", "group.group.Group.order", "group.groups.factory.*"], ALL)],
    "P02": [(x(GROUPS, ("irrep", "trivial_representation", "_build_representations")) + ["group.utils.psi", "group.utils.chi", "group.utils.psichi", "group.irrep.IrreducibleRepresentation.__init__"], ALL)],
    "P03": [(["group.representation.Representation.__init__", "group.representation.Representation.__call__", "group.representation.Representation.__add__",
              "group.representation.Representation.character", "group.representation.Representation.is_trivial", "group.representation.Representation.contains_trivial",
              "group.irrep.IrreducibleRepresentation.__call__", "group.irrep.IrreducibleRepresentation.character", "group.irrep.IrreducibleRepresentation.is_trivial",
              "group.representation.directsum", "group.representation.direct_sum_factory", "group.representation.change_basis", "group.representation.disentangle",
              "group.representation.build_*", "group.representation.decompose_representation", "group.representation.compute_change_of_basis", "group.representation.null", "group.representation.find_orthogonal_matrix",
              "group.representation.sparse_allclose", "group.representation.Representation.restrict"] + x(GROUPS, ("regular_representation", "quotient_representation", "induced_representation", "_induced_from_irrep", "_build_quotient_representations", "_build_representations", "restrict_representation", "_restrict_irrep")), ALL)],
    "P04": [(x(GROUPS, ("subgroup", "_restrict_irrep", "restrict_representation", "_induced_from_irrep", "induced_representation")) + ["group.representation.Representation.restrict"], ALL)],
    "P05": [(x(SPACES, ("__init__", "_basespace_action", "restrict", "featurefield_action", "testing_elements", "irrep", "trivial_repr", "regular_repr", "quotient_repr", "induced_repr", "representations", "irreps")) + ["gspaces.r2.utils.rotate_array", "gspaces.gspace.GSpace.*"], ALL)],
    "P06": [(x(KSOL, ("__init__", "sample", "sample_masked")) + ["kernels.utils.psi", "kernels.utils.chi", "kernels.utils.psichi", "kernels.utils.offset_iterator", "kernels.basis.KernelBasis.sample_masked"] + x(SPACES, ("_basis_generator",)) + ["kernels.r2.*"], ALL)],
    "P07": [(x(KSOL, ("__init__", "__getitem__", "__len__", "__iter__")) + ["kernels.utils.offset_iterator", "kernels.basis.Basis.*", "kernels.r2.*"] + x(SPACES, ("_basis_generator",)), ALL)],
    "P08": [(["kernels.steerable_basis.SteerableKernelBasis.*", "kernels.basis.PolarBasis.*", "kernels.basis.GaussianRadialProfile.*", "kernels.basis.Basis.*", "kernels.basis.KernelBasis.*", "kernels.r2.*", "gspaces.r2.general_r2.GeneralOnR2.build_kernel_basis"] + x(SPACES, ("build_kernel_basis", "_basis_generator")), ALL)],
    "P09": [(["diffops.*"] + x(SPACES, ("_diffop_basis_generator", "build_diffop_basis")), ALL)],
    "P12": [(["nn.field_type.FieldType.*", "nn.modules.utils.*"], ALL)],
    "P13": [(["nn.geometric_tensor.*"], ALL), (["nn.field_type.FieldType.transform", "nn.field_type.FieldType.index_select", "nn.field_type.FieldType.__add__", "nn.field_type.FieldType.restrict"], ALL)] + [(x(SPACES, ("featurefield_action", "_basespace_action")) + ["gspaces.r2.utils.rotate_array"], ALL)],
    "P16": [(["nn.modules.r2_conv.basisexpansion*"] + x(CONVS, ("basisexpansion",)), ALL)],
    "P17": [(x(CONVS, ("__init__", "forward", "expand_parameters", "basisexpansion")) + ["nn.modules.r2_conv.r2convolution.*", "nn.modules.r2_conv.r2_transposed_convolution.*", "nn.modules.r2_conv.r2diffop.*"], ALL)],
    "P18": [(x(CONVS, ("train", "forward", "expand_parameters", "export", "__init__")), ALL)],
    "P19": [(["nn.modules.*.evaluate_output_shape"], ALL)],
    "P20": [(["nn.modules.*.export"], ALL), (["nn.modules.pooling.pointwise_max.FixedConv2D.*", "nn.modules.invariantmaps.gpool.MaxPoolChannels.*"], ALL)],
    "P21": [(["nn.modules.batchnormalization.*"], ALL)],
    "P22": [(["nn.modules.nonlinearities.*"], ALL)],
    "P23": [(["nn.modules.pooling.*", "nn.modules.r2upsampling.*"], ALL)],
    "P24": [(["nn.modules.dropout.*"], ALL)],
    "P25": [(["nn.modules.invariantmaps.*"], ALL)],
    "P26": [([f"nn.modules.{m}.*" for m in STRUCT], ALL)],
    "P32": [(["nn.init.*", "nn.modules.r2_conv.basisexpansion_blocks.BlocksBasisExpansion.get_*", "nn.modules.r2_conv.basisexpansion_blocks.BlocksBasisExpansion.dimension", "nn.modules.r2_conv.basisexpansion_blocks._*", "nn.modules.r2_conv.basisexpansion_singleblock.normalize_basis", "nn.modules.r2_conv.basisexpansion_singleblock.SingleBlockBasisExpansion.get_*", "nn.modules.r2_conv.basisexpansion_singleblock.SingleBlockBasisExpansion.__init__"], ALL)],
    # properties decided by whole-program rules; the listed entry points add the comparison of one aspect
    "P10": [(["gspaces.r2.general_r2.GeneralOnR2.build_*", "diffops.utils.load_cache", "diffops.utils.store_cache", "group.groups.factory.*", "nn.modules.r2_conv.basisexpansion_singleblock.block_basisexpansion", "gspaces.gspace.GSpace.*_repr", "gspaces.gspace.GSpace.representations"] + x(GROUPS, ("_generator", "subgroup", "irrep", "quotient_representation", "restrict_representation", "induced_representation", "_build_quotient_representations")) + x(SPACES, ("build_kernel_basis", "build_diffop_basis")) + x(KSOL + DSOL, ()) , ALL), (["*"], ("memo",))],
    "P11": [(["*.__eq__", "*.__hash__"], ALL)],
    "P14": [(["nn.modules.*.forward"], ("type", "fails"))] + [([f"nn.modules.{m}.*.__init__" for m in STRUCT] + ["nn.modules.*.__init__", "nn.modules.*.add_module"], ("types", "fails"))],
    "P15": [(["nn.modules.nonlinearities.*.__init__", "nn.modules.pooling.*.__init__", "nn.modules.dropout.*.__init__", "nn.modules.batchnormalization.*.__init__", "nn.modules.invariantmaps.*.__init__"], ("fails",)),
            (["group.group._induced_nonlinearities", "group.group.Group.induced_representation", "group.representation.directsum", "group.representation.Representation.__init__", "group.representation.Representation.restrict", "group.representation.change_basis"] + x(GROUPS, ("restrict_representation", "quotient_representation", "induced_representation", "_build_representations", "irrep", "regular_representation")), ALL)],
    "P27": [(["*"], ("mutates",))],
    "P28": [(["*"], ("rng",))],
    "P29": [(["nn.modules.*"], ("registered",))],
    "P30": [(["*"], ("internal",)), (["*.reset_*", "*.evaluate_output_shape", "*.export", "*.restrict", "*.subgroup", "*.__eq__", "*.__hash__", "*.train", "*.forward", "*.get_*", "*.sample", "*.sample_masked", "*.__getitem__", "*.__iter__"], ("internal", "fails"))],
    "P31": [(["*"], ("options",)), (["*.__init__"], ("attrs", "fails", "defaults", "options")), (["*"], ("defaults", "options"))],
}


def aspects(pid, name):
    """parts of the observation of entry point `name` that belong to the property (None: not anchored)"""
    n = name[6:] if name.startswith("e2cnn.") else name
    out = ()
    for pats, asp in ANCHORS.get(pid, ()):
        if any(fnmatch.fnmatchcase(n, p) for p in pats):
            out += tuple(a for a in asp if a not in out)
    return out or None


def skip(name):
    """helpers without documented behaviour (string forms, demo code)"""
    tail = name.rsplit(".", 1)[1]
    return tail in ("__repr__", "extra_repr", "test", "pretty_print", "display_matrix", "display_diffop", "prettify_exponent", "check_equivariance")
