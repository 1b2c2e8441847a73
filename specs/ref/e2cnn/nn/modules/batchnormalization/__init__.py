
from .inner import InnerBatchNorm
from .norm import NormBatchNorm
from .induced_norm import InducedNormBatchNorm
from .gnorm import GNormBatchNorm

__all__ = [
    "InnerBatchNorm",
    "NormBatchNorm",
    "InducedNormBatchNorm",
    "GNormBatchNorm",
]
