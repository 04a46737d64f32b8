"""Stand-in for hubernikus/various_tools (`vartools`), which is not installed
in the sandbox.  Written from the library's documented behaviour; only what
nonlinear_obstacle_avoidance uses."""
import numpy as np


def cross2d(a, b):
    return a[0] * b[1] - a[1] * b[0]
