
from .utils import psi, chi, psichi

from .group import Group

from .representation import Representation
from .irrep import IrreducibleRepresentation
from .representation import directsum
from .representation import disentangle
from .representation import change_basis

from .groups.factory import *
from .groups.cyclicgroup import CyclicGroup
from .groups.dihedralgroup import DihedralGroup
from .groups.so2group import SO2
from .groups.o2group import O2

__all__ = [
    # Groups
    "Group",
    "CyclicGroup",
    "DihedralGroup",
    "SO2",
    "O2",
    "trivial_group",
    "cyclic_group",
    "dihedral_group",
    "so2_group",
    "o2_group",
    # Representations
    "Representation",
    "IrreducibleRepresentation",
    "directsum",
    "disentangle",
    "change_basis",
    # utils
    "psi",
    "chi",
    "psichi",
]

