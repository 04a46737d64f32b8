"""The LASA data files are not available: the handlers carry given arrays."""
import numpy as np


class MotionDataHandler:
    def __init__(self, position=None, velocity=None, **kwargs):
        self.position = position
        self.velocity = velocity
        self.attractor = np.zeros(position.shape[1]) if position is not None else None
        self.direction = None

    @property
    def dimension(self):
        return self.position.shape[1]

    @property
    def attractor_position(self):
        return self.attractor

    @property
    def n_samples(self):
        return self.position.shape[0]

    @property
    def X(self):
        return np.hstack((self.position, self.velocity))


class HandwrittingHandler(MotionDataHandler):
    def __init__(self, *args, file_name=None, **kwargs):
        if file_name is not None or args:
            raise FileNotFoundError("LASA data is not available")
        super().__init__(**kwargs)


HandwrittingDataHandler = HandwrittingHandler
