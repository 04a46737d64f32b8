"""Direction space: log / exp map of the unit sphere around a null direction."""
import copy
import math
import warnings

import numpy as np
from numpy import linalg as LA

from ..linalg import get_orthogonal_basis


class DirectionBase:
    def __init__(self, matrix=None, vector=None):
        if matrix is not None:
            self._matrix = np.array(matrix, dtype=float)
        else:
            self._matrix = get_orthogonal_basis(np.array(vector, dtype=float))

    @property
    def null_matrix(self):
        return self._matrix

    def __eq__(self, other):
        return np.allclose(self._matrix, getattr(other, "_matrix", other))


def _to_matrix(base):
    if isinstance(base, DirectionBase):
        return base.null_matrix
    base = np.array(base, dtype=float)
    return base if base.ndim == 2 else get_orthogonal_basis(base)


def get_angle_from_vector(direction, base):
    base = _to_matrix(base)
    direction = np.array(direction, dtype=float)
    norm = LA.norm(direction)
    if not norm:
        raise ValueError("Zero-vector has no direction.")
    loc = base.T @ (direction / norm)
    rest = loc[1:]
    rest_norm = LA.norm(rest)
    cos_angle = min(max(loc[0], -1.0), 1.0)
    if rest_norm <= 1e-15:
        out = np.zeros(loc.shape[0] - 1)
        if cos_angle < 0:
            out[0] = math.pi
        return out
    angle = math.atan2(rest_norm, loc[0])
    return rest / rest_norm * angle


def get_vector_from_angle(angle, base):
    base = _to_matrix(base)
    angle = np.atleast_1d(np.array(angle, dtype=float))
    norm = LA.norm(angle)
    if not norm:
        return base[:, 0].copy()
    loc = np.hstack((math.cos(norm), math.sin(norm) * angle / norm))
    return base @ loc


def _matrix_from_args(null_direction, null_matrix):
    if null_matrix is None:
        if null_direction is None:
            raise ValueError("Either null_direction or null_matrix is needed.")
        return get_orthogonal_basis(np.array(null_direction, dtype=float))
    return np.array(null_matrix, dtype=float)


def get_angle_space(
    direction, null_direction=None, null_matrix=None, normalize=None,
    OrthogonalBasisMatrix=None,
):
    direction = np.array(direction, dtype=float)
    if direction.ndim > 1:
        return get_angle_space_of_array(direction, null_direction=null_direction,
                                        null_matrix=null_matrix)
    if null_matrix is None and OrthogonalBasisMatrix is not None:
        null_matrix = OrthogonalBasisMatrix
    mat = _matrix_from_args(null_direction, null_matrix)
    if not LA.norm(direction):
        return np.zeros(direction.shape[0] - 1)
    return get_angle_from_vector(direction, mat)


def get_angle_space_of_array(
    directions, positions=None, func_vel_default=None,
    null_direction_abs=None, null_direction=None, null_matrix=None,
):
    directions = np.array(directions, dtype=float)
    dim, n_samples = directions.shape
    out = np.zeros((dim - 1, n_samples))
    for ii in range(n_samples):
        if func_vel_default is not None:
            mat = get_orthogonal_basis(func_vel_default(positions[:, ii]))
        elif null_matrix is not None or null_direction is not None:
            mat = _matrix_from_args(null_direction, null_matrix)
        else:
            mat = get_orthogonal_basis(np.array(null_direction_abs, dtype=float))
        out[:, ii] = get_angle_space(directions[:, ii], null_matrix=mat)
    return out


def get_angle_space_inverse(
    dir_angle_space, null_direction=None, null_matrix=None,
    NullMatrix=None, OrthogonalBasisMatrix=None,
):
    if null_matrix is None:
        null_matrix = NullMatrix if NullMatrix is not None else OrthogonalBasisMatrix
    mat = _matrix_from_args(null_direction, null_matrix)
    return get_vector_from_angle(dir_angle_space, mat)


def get_angle_space_inverse_of_array(
    vecs_angle_space, positions=None, func_vel_default=None,
    default_system=None, null_direction=None, null_matrix=None,
):
    vecs = np.array(vecs_angle_space, dtype=float)
    if vecs.ndim == 1:
        vecs = vecs.reshape(1, -1)
    dim = vecs.shape[0] + 1
    out = np.zeros((dim, vecs.shape[1]))
    func = func_vel_default
    if func is None and default_system is not None:
        func = default_system.evaluate
    for ii in range(vecs.shape[1]):
        if func is not None:
            mat = get_orthogonal_basis(func(positions[:, ii]))
        else:
            mat = _matrix_from_args(null_direction, null_matrix)
        out[:, ii] = get_vector_from_angle(vecs[:, ii], mat)
    return out


def get_directional_weighted_sum(
    null_direction, weights, directions=None, unit_directions=None,
    total_weight=1, normalize=True, normalize_reference=True, normalized_dir=None,
):
    """Weighted mean of unit directions in the direction space of null_direction."""
    weights = np.array(weights, dtype=float)
    directions = np.array(directions, dtype=float)
    ind = weights > 0
    null_direction = np.array(null_direction, dtype=float)
    if not np.any(ind):
        return null_direction / LA.norm(null_direction)
    if np.sum(ind) == 1 and total_weight >= 1 and np.isclose(weights[ind][0], 1):
        dd = directions[:, ind][:, 0]
        return dd / LA.norm(dd)
    mat = get_orthogonal_basis(null_direction)
    angles = np.array(
        [get_angle_from_vector(directions[:, ii], mat) if LA.norm(directions[:, ii])
         else np.zeros(directions.shape[0] - 1)
         for ii in np.arange(weights.shape[0])[ind]]
    ).T
    mean = angles @ (weights[ind] * total_weight)
    return get_vector_from_angle(mean, mat)


def get_directional_weighted_sum_from_unit_directions(
    weights, unit_directions, total_weight=1
):
    base = unit_directions[0].base
    mean = sum(ww * total_weight * ud.as_angle()
               for ww, ud in zip(weights, unit_directions))
    return UnitDirection(base).from_angle(mean)


def fast_directional_vector_addition(vector0, vector1, weight, is_normalized=False):
    n0, n1 = LA.norm(vector0), LA.norm(vector1)
    mat = get_orthogonal_basis(vector0)
    ang = get_angle_from_vector(vector1, mat)
    return get_vector_from_angle(weight * ang, mat) * ((1 - weight) * n0 + weight * n1)


class UnitDirection:
    def __init__(self, base):
        self.base = base
        self._angle = None

    @property
    def null_matrix(self):
        return _to_matrix(self.base)

    def from_angle(self, value):
        self._angle = np.atleast_1d(np.array(value, dtype=float))
        return self

    def from_vector(self, value):
        self._angle = get_angle_from_vector(value, self.base)
        return self

    def as_angle(self):
        return self._angle

    def as_vector(self):
        return get_vector_from_angle(self._angle, self.base)

    def norm(self):
        return LA.norm(self._angle)

    def transform_to_base(self, new_base):
        return UnitDirection(new_base).from_vector(self.as_vector())

    def invert_normal(self):
        mat = self.null_matrix * 1.0
        mat[:, 0] = -mat[:, 0]
        norm = self.norm()
        if norm:
            ang = self._angle / norm * (math.pi - norm)
        else:
            ang = np.zeros_like(self._angle)
            ang[0] = math.pi
        return UnitDirection(mat).from_angle(ang)

    def __add__(self, other):
        return UnitDirection(self.base).from_angle(self._angle + other.as_angle())

    def __sub__(self, other):
        return UnitDirection(self.base).from_angle(self._angle - other.as_angle())

    def __mul__(self, factor):
        return UnitDirection(self.base).from_angle(self._angle * factor)

    __rmul__ = __mul__

    def __truediv__(self, factor):
        return UnitDirection(self.base).from_angle(self._angle / factor)
