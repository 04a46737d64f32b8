def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)

    def _no_plot(*args, **kwargs):
        return None

    return _no_plot
