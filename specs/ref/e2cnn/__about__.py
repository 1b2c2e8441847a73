
__all__ = [
    "__title__",
    "__summary__",
    "__url__",
    "__version__",
    "__author__",
    "__email__",
    "__license__",
]

__title__ = "e2cnn"
__summary__ = "E(2)-Equivariant CNNs Library for PyTorch"
__url__ = 'https://github.com/QUVA-Lab/e2cnn'
__version__ = "0.2.3"
__author__ = "Gabriele Cesa, Maurice Weiler"
__email__ = "cesa.gabriele@gmail.com"
__license__ = "BSD 3-Clause Clear"
