def circular_space_setup(*args, **kwargs):
    raise NotImplementedError("plotting stand-in")
