
from .basis import EmptyBasisException, Basis, KernelBasis, GaussianRadialProfile, PolarBasis

from .steerable_basis import SteerableKernelBasis

from .r2 import *

from .utils import psi, psichi, chi


__all__ = [
    "EmptyBasisException",
    "Basis",
    "KernelBasis",
    # General Bases
    'GaussianRadialProfile',
    'PolarBasis',
    'SteerableKernelBasis',
    # R2 bases
    "kernels_Flip_act_R2",
    "kernels_DN_act_R2",
    "kernels_O2_act_R2",
    "kernels_Trivial_act_R2",
    "kernels_CN_act_R2",
    "kernels_SO2_act_R2",
    #utils
    "psi",
    "psichi",
    "chi",
]
