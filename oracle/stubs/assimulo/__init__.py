"""Stand-in of the assimulo package: records what it is handed and returns recognisable numbers."""
LAST = {}


def result(times, n):
    import numpy as np
    return np.array([[100. * (i + 1) + k for i in range(n)] for k, _ in enumerate(times)])
