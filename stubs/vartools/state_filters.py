import numpy as np
from scipy.spatial.transform import Rotation


class PositionFilter:
    """First-order position / velocity filter."""

    default_alpha = 1.0

    def __init__(self, initial_position, update_frequency=100.0, alpha=None, **kwargs):
        self.position = np.array(initial_position, dtype=float)
        self.update_frequency = update_frequency
        self.alpha = self.default_alpha if alpha is None else alpha
        self.velocity = np.zeros_like(self.position)

    def run_once(self, position, *args, **kwargs):
        new = self.alpha * np.array(position, dtype=float) + (1 - self.alpha) * self.position
        self.velocity = (new - self.position) * self.update_frequency
        self.position = new
        return self.position


class SimpleOrientationFilter:
    def __init__(self, initial_orientation, update_frequency=100.0, alpha=1.0, **kwargs):
        self.orientation = initial_orientation
        self.update_frequency = update_frequency
        self.alpha = alpha
        self.angular_velocity = np.zeros(3)

    def run_once(self, orientation, *args, **kwargs):
        delta = self.orientation.inv() * orientation
        vec = delta.as_rotvec() * self.alpha
        self.angular_velocity = vec * self.update_frequency
        self.orientation = self.orientation * Rotation.from_rotvec(vec)
        return self.orientation

    @property
    def rotation(self):
        return self.orientation
