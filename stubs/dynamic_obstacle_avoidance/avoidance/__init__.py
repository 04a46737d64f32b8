from abc import ABC, abstractmethod


class BaseAvoider(ABC):
    def __init__(self, initial_dynamics=None, obstacle_environment=None,
                 maximum_speed=None, **kwargs):
        self.initial_dynamics = initial_dynamics
        self.obstacle_environment = obstacle_environment
        self.maximum_speed = maximum_speed

    @property
    def attractor(self):
        return self.initial_dynamics.attractor_position

    @property
    def dimension(self):
        return self.initial_dynamics.dimension

    @abstractmethod
    def avoid(self, *args, **kwargs):
        ...

    def evaluate(self, position):
        return self.avoid(position, self.initial_dynamics.evaluate(position))


class ModulationAvoider(BaseAvoider):
    def avoid(self, position, velocity=None, *args, **kwargs):
        return self.initial_dynamics.evaluate(position)


def obs_avoidance_interpolation_moving(position, velocity, obs=None, **kwargs):
    return velocity


def obstacle_avoidance_rotational(position, velocity, *args, **kwargs):
    return velocity
