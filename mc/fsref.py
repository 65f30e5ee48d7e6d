"""
Independent solution of the Falkner-Skan equation by collocation.

The wall value f''(0) is given and beta is the unknown: that is regular all
the way to (and past) separation, where beta has a minimum.
"""
import functools

import numpy as np
from scipy.integrate import solve_bvp

L = 12.0


def _bvp(fpp, eta, guess, beta):
    def rhs(e, y, p):
        return np.array([y[1], y[2], -y[0]*y[2] - p[0]*(1 - y[1]**2)])

    def bc(a, b, p):
        return np.array([a[0], a[1], a[2] - fpp, b[1] - 1])
    sol = solve_bvp(rhs, bc, eta, guess, p=[beta], tol=1e-8, max_nodes=20000)
    if sol.status != 0:
        raise AssertionError(f"collocation at {fpp}: {sol.message} {sol.p} {len(sol.x)}")
    return sol


@functools.lru_cache(maxsize=None)
def _start(i):
    """Solution at f''(0) = .1*i, continued from the Blasius solution."""
    if i == 5:
        eta = np.linspace(0, L, 121)
        up = np.tanh(.5*eta)
        guess = np.array([2*np.log(np.cosh(.5*eta)), up, .5*(1 - up**2)])
        return _bvp(.1*i, eta, guess, 0.0)
    near = _start(i + 1 if i < 5 else i - 1)
    return _bvp(.1*i, near.x, near.y, near.p[0])


def solve(fpp):
    """beta and the attached solution (f, f', f'') with this f''(0)."""
    near = _start(int(round(fpp*10)))
    return _bvp(fpp, near.x, near.y, near.p[0])
