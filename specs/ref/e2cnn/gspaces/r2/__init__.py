from .general_r2 import GeneralOnR2
from .rot2d_on_r2 import Rot2dOnR2
from .fliprot2d_on_r2 import FlipRot2dOnR2
from .flip2d_on_r2 import Flip2dOnR2
from .trivial_on_r2 import TrivialOnR2

__all__ = [
    "GeneralOnR2",
    "Rot2dOnR2",
    "FlipRot2dOnR2",
    "Flip2dOnR2",
    "TrivialOnR2",
]
