import math
import warnings
from abc import ABC

import numpy as np
from numpy import linalg as LA
from scipy.spatial.transform import Rotation

from vartools.linalg import get_orthogonal_basis
from vartools.math import IntersectionType
from vartools.states import Pose, ObjectPose, Twist


class Obstacle(ABC):
    id_counter = 0

    def __init__(
        self, center_position=None, orientation=None, pose=None, *, name=None,
        is_boundary=False, tail_effect=True, has_sticky_surface=True,
        margin_absolut=0.0, margin=None, distance_scaling=1.0, linear_velocity=None,
        angular_velocity=None, twist=None, reference_point=None, dimension=None,
        relative_reference_point=None, repulsion_coeff=1.0, reactivity_factor=1.0,
        gamma_distance=None, obstacle_color=None, deformation_rate=None, **kwargs,
    ):
        if pose is None:
            if center_position is None:
                center_position = np.zeros(2 if dimension is None else dimension)
            center_position = np.array(center_position, dtype=float)
            if orientation is None and center_position.shape[0] == 2:
                orientation = 0.0
            pose = Pose(center_position, orientation)
        elif pose.orientation is None and pose.dimension == 2:
            pose = Pose(pose.position, 0.0)
        self.pose = pose
        self.name = name
        self.is_boundary = is_boundary
        self.tail_effect = tail_effect
        self.has_sticky_surface = has_sticky_surface
        self.margin_absolut = margin_absolut if margin is None else margin
        self.distance_scaling = distance_scaling
        self.repulsion_coeff = repulsion_coeff
        self.reactivity_factor = reactivity_factor
        self.obstacle_color = obstacle_color
        self.twist = twist
        self._lin = linear_velocity
        self._ang = angular_velocity
        if linear_velocity is not None or angular_velocity is not None:
            self.twist = Twist(
                np.zeros(pose.dimension) if linear_velocity is None else linear_velocity,
                (0.0 if pose.dimension == 2 else np.zeros(3))
                if angular_velocity is None else angular_velocity,
            )
        if deformation_rate is not None:
            self.deformation_rate = deformation_rate
        ref = relative_reference_point if reference_point is None else reference_point
        self._reference_point = (
            np.zeros(pose.dimension) if ref is None else np.array(ref, dtype=float)
        )
        self.shape = None
        Obstacle.id_counter += 1
        self.id = Obstacle.id_counter

    # -- state
    @property
    def dimension(self):
        return self.pose.dimension

    dim = dimension

    @property
    def position(self):
        return self.pose.position

    @property
    def center_position(self):
        return self.pose.position

    @center_position.setter
    def center_position(self, value):
        self.pose.position = value

    @property
    def orientation(self):
        return self.pose.orientation

    @orientation.setter
    def orientation(self, value):
        self.pose.orientation = value

    @property
    def rotation(self):
        return self.pose.orientation

    @property
    def rotation_matrix(self):
        return self.pose.rotation_matrix

    @property
    def linear_velocity(self):
        if self.twist is None or self.twist.linear is None:
            return np.zeros(self.dimension)
        return self.twist.linear

    @linear_velocity.setter
    def linear_velocity(self, value):
        if self.twist is None:
            self.twist = Twist(value, 0.0 if self.dimension == 2 else np.zeros(3))
        else:
            self.twist.linear = np.array(value, dtype=float)

    @property
    def angular_velocity(self):
        if self.twist is None or self.twist.angular is None:
            return 0.0 if self.dimension == 2 else np.zeros(3)
        return self.twist.angular

    @angular_velocity.setter
    def angular_velocity(self, value):
        if self.twist is None:
            self.twist = Twist(np.zeros(self.dimension), value)
        else:
            self.twist.angular = value

    def get_pose(self):
        return self.pose

    def update_pose(self, pose):
        self.pose = pose

    # -- frames
    def transform_position_to_relative(self, position):
        return self.pose.transform_position_to_relative(position)

    transform_global2relative = transform_position_to_relative

    def transform_position_from_relative(self, position):
        return self.pose.transform_position_from_relative(position)

    transform_relative2global = transform_position_from_relative

    def transform_direction_to_relative(self, direction):
        return self.pose.transform_direction_to_relative(direction)

    def transform_direction_from_relative(self, direction):
        return self.pose.transform_direction_from_relative(direction)

    transform_relative2global_dir = transform_direction_from_relative
    transform_global2relative_dir = transform_direction_to_relative

    # -- reference point
    @property
    def local_reference_point(self):
        return self._reference_point

    @property
    def relative_reference_point(self):
        return self._reference_point

    @property
    def reference_point(self):
        return self._reference_point

    @property
    def global_reference_point(self):
        return self.pose.transform_position_from_relative(self._reference_point)

    def get_reference_point(self, in_global_frame=False):
        if in_global_frame:
            return self.global_reference_point
        return self._reference_point

    def set_reference_point(self, position, in_global_frame=False):
        if in_global_frame:
            position = self.pose.transform_position_to_relative(position)
        self._reference_point = np.array(position, dtype=float)

    def get_reference_direction(self, position, in_global_frame=False):
        """Unit direction from the position towards the reference point
        (outwards for a boundary is left to the caller)."""
        ref = self.get_reference_point(in_global_frame=in_global_frame)
        direction = ref - np.array(position, dtype=float)
        norm = LA.norm(direction)
        if not norm:
            direction = np.zeros(self.dimension)
            direction[0] = 1.0
            return direction
        return direction / norm

    def get_outwards_reference_direction(self, position, in_global_frame=False):
        return -self.get_reference_direction(position, in_global_frame=in_global_frame)

    # -- geometry (to be specialised):  _surface_radius(direction), _local_normal(position)
    def get_local_radius(self, position, in_global_frame=False):
        if in_global_frame:
            position = self.pose.transform_position_to_relative(position)
        return LA.norm(self._surface_from_center(np.array(position, dtype=float)))

    def get_point_on_surface(self, position, in_global_frame=False, **kwargs):
        if in_global_frame:
            position = self.pose.transform_position_to_relative(position)
        point = self._surface_from_center(np.array(position, dtype=float))
        if in_global_frame:
            point = self.pose.transform_position_from_relative(point)
        return point

    def get_reference_length(self):
        return self.get_characteristic_length()

    def get_characteristic_length(self):
        return float(np.mean(self.axes_length)) / 2.0

    def get_gamma(self, position, in_global_frame=False, is_boundary=None, **kwargs):
        """Distance value: <1 inside, 1 on the surface, > 1 outside."""
        if in_global_frame:
            position = self.pose.transform_position_to_relative(position)
        position = np.array(position, dtype=float)
        if is_boundary is None:
            is_boundary = self.is_boundary
        dist = LA.norm(position)
        if not dist:
            return 1e30 if is_boundary else 0.0
        rad = LA.norm(self._surface_from_center(position))
        if is_boundary:
            dist, rad_b = rad * rad / dist, rad
            rad = rad_b
        if dist < rad:
            return dist / rad
        return 1.0 + (dist - rad) * self.distance_scaling

    def is_inside(self, position, in_global_frame=False, **kwargs):
        return self.get_gamma(position, in_global_frame=in_global_frame) <= 1

    def is_collision_free(self, position, in_global_frame=True):
        return self.get_gamma(position, in_global_frame=in_global_frame) > 1

    def is_in_free_space(self, position, in_global_frame=True):
        return self.get_gamma(position, in_global_frame=in_global_frame) > 1

    def get_normal_direction(self, position, in_global_frame=False, **kwargs):
        """Outward unit normal of the body (also for boundaries pointing
        to the free side: inwards)."""
        if in_global_frame:
            position = self.pose.transform_position_to_relative(position)
        normal = self._local_normal(np.array(position, dtype=float))
        if self.is_boundary:
            normal = -normal
        if in_global_frame:
            normal = self.pose.transform_direction_from_relative(normal)
        return normal

    def get_intersection_with_surface(
        self, start_position=None, direction=None, in_global_frame=False,
        intersection_type=None, only_positive_direction=True, edge_point=None, **kwargs,
    ):
        if start_position is None:  # from the given point, or from the center
            start_position = edge_point
        if start_position is None:
            start_position = (self.center_position if in_global_frame
                              else np.zeros(self.dimension))
        if in_global_frame:
            start_position = self.pose.transform_position_to_relative(start_position)
            direction = self.pose.transform_direction_to_relative(direction)
        point = self._intersection(
            np.array(start_position, dtype=float), np.array(direction, dtype=float),
            intersection_type)
        if point is None:
            return None
        if in_global_frame:
            point = self.pose.transform_position_from_relative(point)
        return point

    # -- kinematics
    def update_position(self, *args, **kwargs):
        pass

    def draw_obstacle(self, *args, **kwargs):
        pass

    def get_boundary_xy(self, in_global_frame=True, n=64):
        return self.get_boundary_with_margin_xy(in_global_frame, n)

    def get_boundary_with_margin_xy(self, in_global_frame=True, n=64):
        pts = []
        for ang in np.linspace(0, 2 * math.pi, n):
            pts.append(self._surface_from_center(np.array([math.cos(ang), math.sin(ang)])))
        pts = np.array(pts).T
        if in_global_frame:
            pts = self.pose.transform_positions_from_relative(pts)
        return pts

    def create_shape(self):
        from shapely.geometry import Polygon
        self.shape = Polygon(self.get_boundary_xy().T)

    def get_shapely(self, *args, **kwargs):
        from shapely.geometry import Polygon
        return Polygon(self.get_boundary_xy().T)


def _pick(t_close, t_far, kind):
    """CLOSE / FAR hit of the line; by default the first hit along the ray
    (start + t * direction, t >= 0), None if the ray never meets the surface."""
    name = getattr(kind, "name", None)
    if name == "CLOSE":
        return t_close
    if name == "FAR":
        return t_far
    if t_close >= -1e-12:
        return t_close
    if t_far >= -1e-12:
        return t_far
    return None


class EllipseWithAxes(Obstacle):
    """`axes_length` are full lengths (diameters)."""

    def __init__(self, *args, axes_length=None, **kwargs):
        super().__init__(*args, **kwargs)
        if axes_length is None:
            axes_length = np.ones(self.dimension)
        self.axes_length = np.array(axes_length, dtype=float)

    @property
    def semi_axes(self):
        return self.axes_length / 2.0

    @property
    def axes_with_margin(self):
        return self.axes_length + 2 * self.margin_absolut

    @property
    def semiaxes_with_magin(self):
        return self.axes_with_margin / 2.0

    semiaxes_with_margin = semiaxes_with_magin

    def _semi(self):
        return self.axes_with_margin / 2.0

    def _surface_from_center(self, direction):
        semi = self._semi()
        scale = LA.norm(direction / semi)
        if not scale:
            out = np.zeros_like(direction)
            out[0] = semi[0]
            return out
        return direction / scale

    def _local_normal(self, position):
        semi = self._semi()
        if not LA.norm(position):
            out = np.zeros_like(position)
            out[0] = 1.0
            return out
        normal = position / semi**2
        return normal / LA.norm(normal)

    def _intersection(self, start, direction, kind):
        semi = self._semi()
        ss, dd = start / semi, direction / semi
        AA, BB, CC = dd @ dd, 2 * dd @ ss, ss @ ss - 1
        DD = BB * BB - 4 * AA * CC
        if DD < 0 or not AA:
            return None
        root = math.sqrt(DD)
        tt = _pick((-BB - root) / (2 * AA), (-BB + root) / (2 * AA), kind)
        if getattr(kind, "name", None) == "BOTH":
            return np.vstack((start + (-BB - root) / (2 * AA) * direction,
                              start + (-BB + root) / (2 * AA) * direction)).T
        return None if tt is None else start + tt * direction


class Ellipse(EllipseWithAxes):
    """`axes_length` are half-axes."""

    def __init__(self, *args, axes_length=None, semi_axes=None, **kwargs):
        if axes_length is None:
            axes_length = semi_axes
        super().__init__(*args, axes_length=axes_length, **kwargs)

    @property
    def semi_axes(self):
        return self.axes_length

    def _semi(self):
        return self.axes_length + self.margin_absolut

    def get_characteristic_length(self):
        return float(np.mean(self.axes_length))


class CircularObstacle(Ellipse):
    def __init__(self, radius=1.0, **kwargs):
        pose = kwargs.get("pose")
        dim = pose.dimension if pose is not None else (
            len(kwargs["center_position"]) if "center_position" in kwargs else 2)
        super().__init__(axes_length=np.ones(dim) * radius, **kwargs)
        self.radius = radius


class CuboidXd(Obstacle):
    """Axis-aligned (in the local frame) box, `axes_length` are full lengths."""

    def __init__(self, *args, axes_length=None, **kwargs):
        super().__init__(*args, **kwargs)
        if axes_length is None:
            axes_length = np.ones(self.dimension)
        self.axes_length = np.array(axes_length, dtype=float)

    @property
    def semi_axes(self):
        return self.axes_length / 2.0

    @property
    def axes_with_margin(self):
        return self.axes_length + 2 * self.margin_absolut

    def _semi(self):
        return self.axes_with_margin / 2.0

    def _surface_from_center(self, direction):
        semi = self._semi()
        scale = np.max(np.abs(direction) / semi)
        if not scale:
            out = np.zeros_like(direction)
            out[0] = semi[0]
            return out
        return direction / scale

    def _local_normal(self, position):
        semi = self._semi()
        delta = np.abs(position) - semi
        if np.max(delta) <= 0:
            ind = int(np.argmax(delta))
            out = np.zeros_like(position)
            out[ind] = math.copysign(1.0, position[ind])
            return out
        out = np.where(delta > 0, delta, 0.0) * np.sign(position)
        return out / LA.norm(out)

    def _intersection(self, start, direction, kind):
        semi = self._semi()
        lo, hi = -math.inf, math.inf
        for ii in range(start.shape[0]):
            if abs(direction[ii]) < 1e-15:
                if abs(start[ii]) > semi[ii]:
                    return None
                continue
            t1 = (-semi[ii] - start[ii]) / direction[ii]
            t2 = (semi[ii] - start[ii]) / direction[ii]
            lo, hi = max(lo, min(t1, t2)), min(hi, max(t1, t2))
        if lo > hi:
            return None
        tt = _pick(lo, hi, kind)
        return None if tt is None else start + tt * direction


Cuboid = CuboidXd


class StarshapedFlower(Obstacle):
    def __init__(self, *args, radius_magnitude=1.0, radius_mean=2.0,
                 number_of_edges=4, **kwargs):
        super().__init__(*args, **kwargs)
        self.radius_magnitude = radius_magnitude
        self.radius_mean = radius_mean
        self.number_of_edges = number_of_edges

    @property
    def axes_length(self):
        return np.ones(2) * 2 * self.radius_mean

    def _radius(self, ang):
        return (self.radius_mean + self.margin_absolut
                + self.radius_magnitude * math.cos(self.number_of_edges * ang))

    def _surface_from_center(self, direction):
        ang = math.atan2(direction[1], direction[0])
        return np.array([math.cos(ang), math.sin(ang)]) * self._radius(ang)

    def _local_normal(self, position):
        ang = math.atan2(position[1], position[0])
        rad = self._radius(ang)
        dr = -self.radius_magnitude * self.number_of_edges * math.sin(
            self.number_of_edges * ang)
        er = np.array([math.cos(ang), math.sin(ang)])
        et = np.array([-math.sin(ang), math.cos(ang)])
        normal = rad * er - dr * et
        return normal / LA.norm(normal)

    def _intersection(self, start, direction, kind):
        # ray from (approximately) the center
        if LA.norm(start) < 1e-12:
            return self._surface_from_center(direction)
        direction = direction / LA.norm(direction)
        lo, hi = 0.0, 10 * (self.radius_mean + self.radius_magnitude)
        ff = lambda t: (LA.norm(start + t * direction)
                        - LA.norm(self._surface_from_center(start + t * direction)))
        for _ in range(200):
            mid = 0.5 * (lo + hi)
            if ff(mid) > 0:
                hi = mid
            else:
                lo = mid
        return start + hi * direction
