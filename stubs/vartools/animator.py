class Animator:
    def __init__(self, *args, **kwargs):
        self.dt_simulation = kwargs.get("dt_simulation", 0.1)
