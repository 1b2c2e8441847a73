

from .gspace import GSpace
from .r2 import *


__all__ = [
    "GSpace",
    # R2
    "GeneralOnR2",
    "Rot2dOnR2",
    "FlipRot2dOnR2",
    "Flip2dOnR2",
    "TrivialOnR2",
]
