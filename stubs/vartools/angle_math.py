import math
import numpy as np


def get_orientation_from_direction(direction, null_vector=None):
    return math.atan2(direction[1], direction[0])


def angle_difference_directional(a, b):
    return (a - b + math.pi) % (2 * math.pi) - math.pi
