import warnings

import numpy as np
from numpy import linalg as LA


def compute_weights(distMeas, N=0, distMeas_lowerLimit=1, weightPow=2, **kwargs):
    """Partition of unity over the obstacles: full weight on those whose distance
    measure is at (or below) its lower limit."""
    dist = np.array(distMeas, dtype=float)
    nn = dist.shape[0]
    if not nn:
        return np.zeros(0)
    crit = dist <= distMeas_lowerLimit
    if np.any(crit):
        return crit / np.sum(crit)
    weights = (1.0 / (dist - distMeas_lowerLimit)) ** weightPow
    total = np.sum(weights)
    if total > 1:
        weights = weights / total
    return weights


def get_weight_from_inv_of_gamma(gamma_array, power_value=1.0):
    gamma_array = np.array(gamma_array, dtype=float)
    return np.where(gamma_array <= 1, 1.0, (1.0 / np.maximum(gamma_array, 1.0)) ** power_value)


def get_relative_obstacle_velocity(
    position, obstacle_list, ind_obstacles=None, gamma_list=None, E_orth=None,
    weights=None, **kwargs,
):
    dim = position.shape[0]
    if ind_obstacles is None:
        ind_obstacles = np.ones(len(obstacle_list), dtype=bool)
    out = np.zeros(dim)
    for it, it_obs in enumerate(np.arange(len(obstacle_list))[ind_obstacles]):
        obs = obstacle_list[it_obs]
        lin = getattr(obs, "linear_velocity", None)
        vel = np.zeros(dim) if lin is None else np.array(lin, dtype=float)
        ang = getattr(obs, "angular_velocity", None)
        rel = position - obs.center_position
        if ang is not None and np.any(ang):
            if dim == 2:
                vel = vel + float(ang) * np.array([-rel[1], rel[0]])
            else:
                vel = vel + np.cross(ang, rel)
        out = out + weights[it] * vel
    return out
