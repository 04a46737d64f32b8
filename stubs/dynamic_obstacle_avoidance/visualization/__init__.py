def plot_obstacles(*args, **kwargs):
    pass


def plot_obstacle_dynamics(*args, **kwargs):
    pass


def Simulation_vectorFields(*args, **kwargs):
    pass
