"""Scenes for the avoiders: obstacles, dynamics, and their description for the specs.

A shape is described to the specifications in millimetres as
  {"k": "ball" | "box", "c": centre, "ax": half axes, "m": rows of the rotation matrix
   (1/10000), "tree": obstacle, "comp": component}
"""
import math

import numpy as np


def mods():
    import types

    from nonlinear_avoidance.arch_obstacle import create_arch_obstacle
    from nonlinear_avoidance.multi_obstacle import MultiObstacle
    from nonlinear_avoidance.multi_obstacle_avoider import MultiObstacleAvoider
    from nonlinear_avoidance.multi_obstacle_container import MultiObstacleContainer

    from dynamic_obstacle_avoidance.obstacles import CuboidXd, Ellipse
    from vartools.dynamical_systems import LinearSystem
    from vartools.states import Pose, Twist

    return types.SimpleNamespace(**locals())


def ball(m, c, ax, ang=0.0, pose_ang=None, **kw):
    """A single ellipse/ellipsoid as obstacle."""
    c = np.array(c, float)
    ax = np.array(ax, float)
    if c.shape[0] == 2:
        o = m.MultiObstacle(m.Pose(c, ang))
    else:
        o = m.MultiObstacle(m.Pose(c, None))
    o.set_root(m.Ellipse(center_position=np.zeros(c.shape[0]), axes_length=ax, **kw))
    return o


def box(m, c, full, ang=0.0, **kw):
    c = np.array(c, float)
    o = m.MultiObstacle(m.Pose(c, ang if c.shape[0] == 2 else None))
    o.set_root(m.CuboidXd(center_position=np.zeros(c.shape[0]),
                          axes_length=np.array(full, float), **kw))
    return o


def container(m, obstacles):
    c = m.MultiObstacleContainer()
    for o in obstacles:
        c.append(o)
    return c


def avoider(m, cont, ds, **kw):
    return m.MultiObstacleAvoider.create_with_convergence_dynamics(
        obstacle_container=cont, initial_dynamics=ds, reference_dynamics=ds, **kw)


def describe(cont):
    shapes = []
    for t, tree in enumerate(cont):
        for k in range(tree.n_components):
            o = tree.get_component(k)
            kind = "box" if type(o).__name__ == "CuboidXd" else "ball"
            shapes.append({
                "k": kind, "c": mm(o.center_position), "ax": mm(o._semi()),
                "m": [ten(r) for r in o.pose.rotation_matrix.T], "tree": t, "comp": k})
    return shapes


def mm(x):
    return np.rint(np.asarray(x, float) * 1000).astype(int).tolist()


def ten(x):
    return np.rint(np.asarray(x, float) * 10000).astype(int).tolist()


def rot(a):
    return np.array([[math.cos(a), -math.sin(a)], [math.sin(a), math.cos(a)]])
