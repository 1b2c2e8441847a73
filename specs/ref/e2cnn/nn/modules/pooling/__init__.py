from .norm_max import NormMaxPool

from .pointwise_max import PointwiseMaxPool
from .pointwise_max import PointwiseMaxPoolAntialiased
from .pointwise_avg import PointwiseAvgPool
from .pointwise_avg import PointwiseAvgPoolAntialiased
from .pointwise_adaptive_avg import PointwiseAdaptiveAvgPool
from .pointwise_adaptive_max import PointwiseAdaptiveMaxPool


__all__ = [
    "NormMaxPool",
    "PointwiseMaxPool",
    "PointwiseMaxPoolAntialiased",
    "PointwiseAvgPool",
    "PointwiseAvgPoolAntialiased",
    "PointwiseAdaptiveAvgPool",
    "PointwiseAdaptiveMaxPool",
]


