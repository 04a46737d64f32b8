from abc import ABC, abstractmethod
import copy

import numpy as np
from numpy import linalg as LA

from ..states import Pose


class DynamicalSystem(ABC):
    def __init__(self, pose=None, maximum_velocity=None, dimension=None,
                 attractor_position=None, distance_decrease=1.0):
        self.maximum_velocity = maximum_velocity
        self.distance_decrease = distance_decrease
        self.pose = pose
        if attractor_position is not None:
            attractor_position = np.array(attractor_position, dtype=float)
        if attractor_position is not None:
            self.attractor_position = attractor_position
        elif pose is not None and pose.position is not None:
            self.attractor_position = pose.position
        if pose is None and attractor_position is not None:
            self.pose = Pose(attractor_position,
                             0.0 if attractor_position.shape[0] == 2 else None)
        if dimension is not None:
            self.dimension = dimension
        elif attractor_position is not None:
            self.dimension = attractor_position.shape[0]
        elif pose is not None:
            self.dimension = pose.position.shape[0]

    @property
    def attractor(self):
        return self.attractor_position

    @property
    def center_position(self):
        return self.pose.position

    @abstractmethod
    def evaluate(self, position):
        ...

    def limit_velocity(self, velocity, maximum_velocity=None):
        if maximum_velocity is None:
            maximum_velocity = self.maximum_velocity
        if maximum_velocity is None:
            return velocity
        norm = LA.norm(velocity)
        if norm > maximum_velocity:
            velocity = velocity / norm * maximum_velocity
        return velocity

    def limit_velocity_around_attractor(self, velocity, position):
        mag = LA.norm(velocity)
        if not mag:
            return velocity
        dist = LA.norm(position - self.attractor_position)
        des = self.maximum_velocity if self.maximum_velocity else mag
        if dist < self.distance_decrease:
            des = des * dist / self.distance_decrease
        return velocity / mag * des

    def compute_dynamics(self, position):
        return self.evaluate(position)

    def motion_integration(self, start_position, dt, max_iteration=1000,
                           err_abs_max=1e-2):
        traj = [np.array(start_position, dtype=float)]
        for _ in range(max_iteration):
            vel = self.evaluate(traj[-1])
            traj.append(traj[-1] + vel * dt)
            if LA.norm(vel) < err_abs_max:
                break
        return np.array(traj).T


Dynamics = DynamicalSystem
