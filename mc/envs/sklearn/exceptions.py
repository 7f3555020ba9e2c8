class NotFittedError(ValueError, AttributeError):
    pass


class ConvergenceWarning(UserWarning):
    pass
