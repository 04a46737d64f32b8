"""Structure and edits of direction trees: RotationTree.tla in lock-step."""
import vf
from props import _tree

ONE = [[4], [0, 4], [2, 2], [0, 4, 0], [0, 0, 4], [1, 1, 2], [0, 0, 0, 4], [0, 2, 2, 0]]


def edits(chk):
    _tree.explore(chk, "edits", 12, 4 if vf.THOROUGH else 3, [0, 2, 5, 9], ONE, False, 80)


def sequences(chk):
    _tree.explore(chk, "sequences", 12, 5 if vf.THOROUGH else 4, [0, 4, 9], ONE, True, 80)


PARTS = [edits, sequences]
