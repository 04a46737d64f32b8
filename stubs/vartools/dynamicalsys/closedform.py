import numpy as np


def evaluate_linear_dynamical_system(position, dimension=2, center_position=None,
                                     max_velocity=None, **kwargs):
    pos = np.array(position, dtype=float)
    if center_position is not None:
        pos = pos - np.array(center_position)
    return -pos
