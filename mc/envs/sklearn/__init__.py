# -*- coding: utf-8 -*-
"""Environment model of scikit-learn 1.2: only what convst uses, faithful in the semantics the properties rely on."""
__version__ = "1.2.2"
from .base import clone  # noqa
