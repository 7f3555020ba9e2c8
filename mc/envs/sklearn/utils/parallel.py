from .fixes import delayed  # noqa
from joblib import Parallel  # noqa
