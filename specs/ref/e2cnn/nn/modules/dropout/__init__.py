
from .pointwise import PointwiseDropout
from .field import FieldDropout

__all__ = [
    "PointwiseDropout",
    "FieldDropout"
]

