
from .norm import NormNonLinearity
from .induced_norm import InducedNormNonLinearity
from .pointwise import PointwiseNonLinearity
from .concatenated import ConcatenatedNonLinearity
from .gated1 import GatedNonLinearity1, GATES_ID, GATED_ID
from .gated2 import GatedNonLinearity2
from .induced_gated1 import InducedGatedNonLinearity1
from .vectorfield import VectorFieldNonLinearity

from .relu import ReLU
from .elu import ELU


__all__ = [
    "NormNonLinearity",
    "InducedNormNonLinearity",
    "PointwiseNonLinearity",
    "ConcatenatedNonLinearity",
    "GatedNonLinearity1",
    "GatedNonLinearity2",
    "InducedGatedNonLinearity1",
    "VectorFieldNonLinearity",
    "ReLU",
    "ELU",
]


