import math
import numpy as np
from numpy import linalg as LA

from ._base import DynamicalSystem


class LinearSystem(DynamicalSystem):
    def __init__(self, attractor_position=None, A_matrix=None, dimension=None,
                 maximum_velocity=None, distance_decrease=1.0, **kwargs):
        if attractor_position is None:
            if dimension is None:
                dimension = 2 if A_matrix is None else np.array(A_matrix).shape[0]
            attractor_position = np.zeros(dimension)
        super().__init__(attractor_position=attractor_position,
                         maximum_velocity=maximum_velocity, dimension=dimension,
                         distance_decrease=distance_decrease)
        self.A_matrix = (-np.eye(self.dimension) if A_matrix is None
                         else np.array(A_matrix, dtype=float))

    def evaluate(self, position, max_vel=None):
        velocity = self.A_matrix @ (np.array(position, dtype=float) - self.attractor_position)
        return self.limit_velocity(velocity, max_vel)

    def is_stable(self, position=None):
        return bool(np.all(LA.eigvals(self.A_matrix).real < 0))


class ConstantValue(DynamicalSystem):
    def __init__(self, velocity):
        self.constant_velocity = np.array(velocity, dtype=float)
        super().__init__(dimension=self.constant_velocity.shape[0])

    def evaluate(self, position=None):
        return np.copy(self.constant_velocity)
