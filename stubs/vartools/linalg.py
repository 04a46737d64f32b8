import numpy as np
from numpy import linalg as LA


def get_orthogonal_basis(vector, normalize=True):
    """Orthonormal basis [d x d] whose first column is the (unit) vector."""
    vector = np.array(vector, dtype=float)
    if normalize:
        norm = LA.norm(vector)
        if not norm:
            raise ValueError("Orthogonal basis matrix needs non-zero vector as input.")
        vector = vector / norm
    dim = vector.shape[0]
    basis = np.zeros((dim, dim))
    basis[:, 0] = vector
    if dim == 2:
        basis[:, 1] = [-vector[1], vector[0]]
    elif dim == 3:
        if LA.norm(vector[:2]) > 1e-12:
            basis[:, 1] = [-vector[1], vector[0], 0.0]
            basis[:, 1] /= LA.norm(basis[:, 1])
        else:
            basis[:, 1] = [1.0, 0.0, 0.0]
        basis[:, 2] = np.cross(basis[:, 0], basis[:, 1])
    else:
        cols = [vector]
        order = np.argsort(np.abs(vector), kind="stable")
        for jj in order:
            if len(cols) == dim:
                break
            cand = np.zeros(dim)
            cand[jj] = 1.0
            for cc in cols:
                cand = cand - cc * (cand @ cc)
            nn = LA.norm(cand)
            if nn > 1e-8:
                cols.append(cand / nn)
        basis = np.array(cols).T
    return basis


class OrthogonalBasisError(Exception):
    pass
