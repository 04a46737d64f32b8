class VectorfieldPlotter:
    def __init__(self, *args, **kwargs):
        pass
