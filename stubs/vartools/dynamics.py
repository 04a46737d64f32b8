from .dynamical_systems import *
from .dynamical_systems import DynamicalSystem, Dynamics, LinearSystem, ConstantValue
