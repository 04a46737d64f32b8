import copy
from dataclasses import dataclass, field
from typing import Optional

import numpy as np
from scipy.spatial.transform import Rotation


def _rot2(angle):
    return np.array([[np.cos(angle), -np.sin(angle)], [np.sin(angle), np.cos(angle)]])


class Pose:
    """Position and orientation (float in 2D, scipy Rotation in 3D)."""

    def __init__(self, position, orientation=None):
        self._position = None if position is None else np.array(position, dtype=float)
        self._orientation = orientation

    @classmethod
    def create_trivial(cls, dimension):
        return cls(np.zeros(dimension), 0.0 if dimension == 2 else None)

    @property
    def dimension(self):
        return self._position.shape[0]

    @property
    def position(self):
        return self._position

    @position.setter
    def position(self, value):
        self._position = np.array(value, dtype=float)

    @property
    def orientation(self):
        return self._orientation

    @orientation.setter
    def orientation(self, value):
        self._orientation = value

    @property
    def rotation(self):
        return self._orientation

    @rotation.setter
    def rotation(self, value):
        self._orientation = value

    @property
    def rotation_matrix(self):
        if self._orientation is None:
            return np.eye(self.dimension)
        if isinstance(self._orientation, Rotation):
            return self._orientation.as_matrix()
        if self.dimension == 2:
            return _rot2(float(self._orientation))
        return np.eye(self.dimension)

    # -- directions
    def transform_direction_from_relative(self, direction):
        return self.rotation_matrix @ np.array(direction, dtype=float)

    def transform_direction_to_relative(self, direction):
        return self.rotation_matrix.T @ np.array(direction, dtype=float)

    transform_linear_velocity_from_relative = transform_direction_from_relative
    transform_linear_velocity_to_relative = transform_direction_to_relative

    def transform_directions_from_relative(self, directions):
        return self.rotation_matrix @ np.array(directions, dtype=float)

    def transform_directions_to_relative(self, directions):
        return self.rotation_matrix.T @ np.array(directions, dtype=float)

    # -- positions
    def transform_position_from_relative(self, position):
        return self.rotation_matrix @ np.array(position, dtype=float) + self.position

    def transform_position_to_relative(self, position):
        return self.rotation_matrix.T @ (np.array(position, dtype=float) - self.position)

    def transform_positions_from_relative(self, positions):
        return (self.rotation_matrix @ np.array(positions, dtype=float)
                + self.position.reshape(-1, 1))

    def transform_positions_to_relative(self, positions):
        return self.rotation_matrix.T @ (
            np.array(positions, dtype=float) - self.position.reshape(-1, 1))

    # -- orientation / pose
    def transform_orientation_from_relative(self, orientation):
        if self._orientation is None:
            return orientation
        if orientation is None:
            return self._orientation
        if isinstance(self._orientation, Rotation):
            return self._orientation * orientation
        return self._orientation + orientation

    def transform_orientation_to_relative(self, orientation):
        if self._orientation is None:
            return orientation
        if isinstance(self._orientation, Rotation):
            inv = self._orientation.inv()
            return inv if orientation is None else inv * orientation
        return (0.0 if orientation is None else orientation) - self._orientation

    def transform_pose_from_relative(self, pose):
        return Pose(
            self.transform_position_from_relative(pose.position),
            self.transform_orientation_from_relative(pose.orientation),
        )

    def transform_pose_to_relative(self, pose):
        return Pose(
            self.transform_position_to_relative(pose.position),
            self.transform_orientation_to_relative(pose.orientation),
        )

    def __repr__(self):
        return f"Pose(position={self._position}, orientation={self._orientation})"


class ObjectPose(Pose):
    def __init__(self, position=None, orientation=None):
        super().__init__(position, orientation)


class Twist:
    def __init__(self, linear=None, angular=None):
        self.linear = None if linear is None else np.array(linear, dtype=float)
        self.angular = angular

    @classmethod
    def create_trivial(cls, dimension):
        return cls(np.zeros(dimension), 0.0 if dimension == 2 else np.zeros(3))


@dataclass
class Wrench:
    force: np.ndarray = None
    torque: np.ndarray = None
