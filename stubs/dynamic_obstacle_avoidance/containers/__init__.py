import numpy as np


class BaseContainer:
    def __init__(self, obs_list=None, *args, **kwargs):
        self._obstacle_list = [] if obs_list is None else list(obs_list)

    def append(self, value):
        self._obstacle_list.append(value)

    def __getitem__(self, key):
        return self._obstacle_list[key]

    def __setitem__(self, key, value):
        self._obstacle_list[key] = value

    def __delitem__(self, key):
        del self._obstacle_list[key]

    def __iter__(self):
        return iter(self._obstacle_list)

    def __len__(self):
        return len(self._obstacle_list)

    @property
    def number(self):
        return len(self._obstacle_list)

    @property
    def n_obstacles(self):
        return len(self._obstacle_list)

    @property
    def dimension(self):
        return self._obstacle_list[0].dimension

    @property
    def index_wall(self):
        for ii, obs in enumerate(self._obstacle_list):
            if obs.is_boundary:
                return ii
        return None

    def get_obstacles(self):
        return self._obstacle_list

    def is_collision_free(self, position):
        return all(o.get_gamma(position, in_global_frame=True) > 1 for o in self)

    def get_minimum_gamma(self, position):
        return min(o.get_gamma(position, in_global_frame=True) for o in self)


class ObstacleContainer(BaseContainer):
    pass


class RotationContainer(BaseContainer):
    pass


class MultiBoundaryContainer(BaseContainer):
    pass
