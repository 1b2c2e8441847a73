
from .field_type import FieldType
from .geometric_tensor import GeometricTensor, tensor_directsum

from .modules import *


__all__ = [
    "FieldType",
    "GeometricTensor",
    "tensor_directsum",
    # Modules
    "EquivariantModule",
    "BranchingModule",
    "MergeModule",
    "MultipleModule",
    "R2Conv",
    "R2ConvTransposed",
    "R2Diffop",
    "R2Upsampling",
    "GatedNonLinearity1",
    "GatedNonLinearity2",
    "InducedGatedNonLinearity1",
    "NormNonLinearity",
    "InducedNormNonLinearity",
    "PointwiseNonLinearity",
    "ConcatenatedNonLinearity",
    "VectorFieldNonLinearity",
    "ReLU",
    "ELU",
    "ReshuffleModule",
    "NormMaxPool",
    "PointwiseMaxPool",
    "PointwiseMaxPoolAntialiased",
    "PointwiseAvgPool",
    "PointwiseAvgPoolAntialiased",
    "PointwiseAdaptiveAvgPool",
    "PointwiseAdaptiveMaxPool",
    "GroupPooling",
    "MaxPoolChannels",
    "NormPool",
    "InducedNormPool",
    "InnerBatchNorm",
    "NormBatchNorm",
    "InducedNormBatchNorm",
    "GNormBatchNorm",
    "RestrictionModule",
    "DisentangleModule",
    "FieldDropout",
    "PointwiseDropout",
    "SequentialModule",
    "ModuleList",
    "IdentityModule",
    "MaskModule",
    # init
    "init",
]
