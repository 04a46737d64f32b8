from enum import Enum, auto

import math
import numpy as np
from numpy import linalg as LA


class IntersectionType(Enum):
    FAR = auto()
    CLOSE = auto()
    BOTH = auto()


class CircleIntersectionType(Enum):
    FAR = auto()
    CLOSE = auto()
    BOTH = auto()


def get_intersection_with_circle(
    start_position,
    direction,
    radius,
    only_positive=True,
    intersection_type=None,
    start_position_=None,
):
    """Intersection of the line start + t*direction with the origin-centred circle.

    FAR: larger t, CLOSE: smaller t;  BOTH / only_positive=False: [d x 2].
    None if the line misses the circle.
    """
    start = np.array(start_position, dtype=float)
    direc = np.array(direction, dtype=float)
    AA = float(np.sum(direc**2))
    BB = 2.0 * float(np.dot(direc, start))
    CC = float(np.sum(start**2)) - radius**2
    DD = BB**2 - 4 * AA * CC
    if DD < 0 or not AA:
        return None
    root = math.sqrt(DD)
    t_far = (-BB + root) / (2 * AA)
    t_close = (-BB - root) / (2 * AA)
    name = None if intersection_type is None else intersection_type.name
    if name == "FAR":
        return start + t_far * direc
    if name == "CLOSE":
        return start + t_close * direc
    if name == "BOTH" or not only_positive:
        return np.vstack((start + t_close * direc, start + t_far * direc)).T
    if t_far < 0:
        return None
    return start + t_far * direc


def get_intersection_between_line_and_plane(
    line_position, line_direction, plane_position, plane_normal, positive_only=False
):
    """Intersection of line and (hyper-)plane; None if parallel, or (positive_only)
    if the plane lies behind the start of the ray."""
    pos = np.array(line_position, dtype=float)
    direc = np.array(line_direction, dtype=float)
    denom = float(np.dot(direc, plane_normal))
    if abs(denom) < 1e-15:
        return None
    fac = float(np.dot(np.array(plane_position, dtype=float) - pos, plane_normal)) / denom
    if positive_only and fac < 0:
        return None
    return pos + fac * direc


def get_numerical_gradient(position, value_functor, delta_magnitude=1e-6):
    position = np.array(position, dtype=float)
    grad = np.zeros_like(position)
    for ii in range(position.shape[0]):
        dd = np.zeros_like(position)
        dd[ii] = delta_magnitude
        grad[ii] = (value_functor(position + dd) - value_functor(position - dd)) / (
            2 * delta_magnitude
        )
    return grad
