from . import errors
from .. import types
