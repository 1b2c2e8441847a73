
from .steerable_basis import SteerableDiffopBasis
from .basis import LaplaceProfile, TensorBasis, DiffopBasis, DiscretizationArgs

from .r2 import *

from .utils import store_cache, load_cache


__all__ = [
    # General Bases
    "SteerableDiffopBasis",
    "LaplaceProfile",
    "TensorBasis",
    "DiffopBasis",
    "DiscretizationArgs",
    # R2 bases
    "diffops_Flip_act_R2",
    "diffops_DN_act_R2",
    "diffops_O2_act_R2",
    "diffops_Trivial_act_R2",
    "diffops_CN_act_R2",
    "diffops_SO2_act_R2",
    # Utils
    "load_cache",
    "store_cache",
]
