
# from .group import Group

from .factory import *

from .cyclicgroup import CyclicGroup
from .dihedralgroup import DihedralGroup
from .so2group import SO2
from .o2group import O2


__all__ = [
    # "Group",
    "CyclicGroup",
    "DihedralGroup",
    "SO2",
    "O2",
    "cyclic_group",
    "dihedral_group",
    "so2_group",
    "o2_group",
    "trivial_group",
]
