import math

import numpy as np
from numpy import linalg as LA
from scipy.spatial.transform import Rotation

from ._base import DynamicalSystem, Dynamics
from .linear import LinearSystem, ConstantValue
from ..states import Pose


def _rot(angle):
    return np.array([[math.cos(angle), -math.sin(angle)],
                     [math.sin(angle), math.cos(angle)]])


class CircularStable(DynamicalSystem):
    """Limit cycle of given radius around the centre (2D)."""

    def __init__(self, radius=1.0, factor_controler=1.0, main_direction=1,
                 direction=1, constant_velocity=1.0, maximum_velocity=1.0,
                 dimension=2, attractor_position=None, pose=None, **kwargs):
        super().__init__(attractor_position=(np.zeros(dimension)
                         if attractor_position is None and pose is None
                         else attractor_position),
                         pose=pose, maximum_velocity=maximum_velocity,
                         dimension=dimension)
        if self.pose is None:
            self.pose = Pose(self.attractor_position, 0.0)
        self.radius = radius
        self.direction = direction
        self.factor_controler = factor_controler

    def evaluate(self, position):
        rel = np.array(position, dtype=float) - self.attractor_position
        dist = LA.norm(rel)
        if not dist:
            return np.zeros_like(rel)
        tang = np.array([-rel[1], rel[0]]) * self.direction / dist
        vel = tang * dist - self.factor_controler * rel / dist * (dist - self.radius)
        return self.limit_velocity(vel)


class LocallyRotated(DynamicalSystem):
    def __init__(self, max_rotation, mean_rotation=None, influence_pose=None,
                 influence_radius=1.0, attractor_position=None, delta_influence=0.5,
                 initial_dynamics=None, maximum_velocity=None, dimension=None, **kwargs):
        self.max_rotation = np.atleast_1d(np.array(max_rotation, dtype=float))
        dim = self.max_rotation.shape[0] + 1
        super().__init__(attractor_position=(np.zeros(dim) if attractor_position is None
                                             else attractor_position),
                         maximum_velocity=maximum_velocity, dimension=dim)
        self.influence_pose = influence_pose
        self.influence_radius = influence_radius
        self.delta_influence = delta_influence

    def _weight(self, position):
        center = (np.zeros(self.dimension) if self.influence_pose is None
                  else self.influence_pose.position)
        dist = LA.norm(position - center) - self.influence_radius
        if dist <= 0:
            return 1.0
        return max(0.0, 1 - dist / self.delta_influence)

    def evaluate(self, position):
        from ..directional_space import get_angle_space_inverse
        position = np.array(position, dtype=float)
        rel = self.attractor_position - position
        mag = LA.norm(rel)
        if not mag:
            return np.zeros(self.dimension)
        out = get_angle_space_inverse(self.max_rotation * self._weight(position),
                                      null_direction=rel)
        return self.limit_velocity(out * mag)


class WavyRotatedDynamics(DynamicalSystem):
    def __init__(self, pose=None, rotation_power=1.0, rotation_frequency=1.0,
                 max_rotation=math.pi / 2, attractor_position=None,
                 maximum_velocity=None, **kwargs):
        super().__init__(pose=pose, attractor_position=attractor_position,
                         maximum_velocity=maximum_velocity)
        self.rotation_power = rotation_power
        self.rotation_frequency = rotation_frequency
        self.max_rotation = max_rotation

    def evaluate(self, position):
        rel = np.array(position, dtype=float) - self.attractor_position
        dist = LA.norm(rel)
        ang = self.max_rotation * math.sin(self.rotation_frequency * dist**self.rotation_power)
        return self.limit_velocity(_rot(ang) @ (-rel))


class AxesFollowingDynamics(DynamicalSystem):
    def __init__(self, center_position=None, direction=None, main_direction=None,
                 maximum_velocity=1.0, dimension=2, **kwargs):
        center_position = np.zeros(dimension) if center_position is None else center_position
        super().__init__(pose=Pose(center_position), maximum_velocity=maximum_velocity)
        self.main_direction = np.array(
            main_direction if main_direction is not None else direction, dtype=float)
        self.main_direction = self.main_direction / LA.norm(self.main_direction)

    def evaluate(self, position):
        rel = np.array(position, dtype=float) - self.pose.position
        perp = rel - (rel @ self.main_direction) * self.main_direction
        return self.limit_velocity(self.main_direction - perp)


class QuadraticAxisConvergence(DynamicalSystem):
    def __init__(self, stretching_factor=1.0, main_axis=0, conv_pow=2,
                 attractor_position=None, maximum_velocity=None, dimension=2,
                 max_vel=None, **kwargs):
        super().__init__(attractor_position=(np.zeros(dimension)
                         if attractor_position is None else attractor_position),
                         maximum_velocity=maximum_velocity, dimension=dimension)
        self.stretching_factor = stretching_factor
        self.main_axis = main_axis
        self.conv_pow = conv_pow

    def evaluate(self, position, **kwargs):
        rel = np.array(position, dtype=float) - self.attractor_position
        vel = -rel
        for ii in range(self.dimension):
            if ii != self.main_axis:
                vel[ii] = -self.stretching_factor * math.copysign(
                    abs(rel[ii]) ** self.conv_pow, rel[ii])
        return self.limit_velocity(vel)


class SinusAttractorSystem(DynamicalSystem):
    def __init__(self, attractor_position=None, maximum_velocity=None,
                 trafo_coefficients=None, fast_axis=0, **kwargs):
        super().__init__(attractor_position=(np.zeros(2) if attractor_position is None
                                             else attractor_position),
                         maximum_velocity=maximum_velocity)

    def evaluate(self, position):
        rel = np.array(position, dtype=float) - self.attractor_position
        vel = np.array([-rel[0], -rel[1] - math.sin(rel[0])])
        return self.limit_velocity(vel)


class BifurcationSpiral(DynamicalSystem):
    def evaluate(self, position):
        return -np.array(position, dtype=float)


class SpiralStable(DynamicalSystem):
    def evaluate(self, position):
        p = np.array(position, dtype=float)
        return _rot(1.0) @ (-p)


class CircularLinear(SpiralStable):
    pass


def plot_dynamical_system(*args, **kwargs):
    pass


plot_dynamical_system_quiver = plot_dynamical_system
plot_dynamical_system_streamplot = plot_dynamical_system
