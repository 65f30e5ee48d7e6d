"""Edge velocity alphabet: name -> (u, du, d2u), scaled by a velocity."""
import numpy as np


def flow(name, U, L=1.0):
    """Velocity and derivatives; L stretches the streamwise coordinate."""
    if L != 1.0:
        u, du, d2u = flow(name, U)
        return (lambda x: u(x/L), lambda x: du(x/L)/L,
                lambda x: d2u(x/L)/L**2)
    f = {
        "flat": (lambda x: U + 0*x, lambda x: 0*x, lambda x: 0*x),
        "accel": (lambda x: U*(1 + x), lambda x: U + 0*x, lambda x: 0*x),
        "wedge": (lambda x: U*(.1+x)**.25,
                  lambda x: .25*U*(.1+x)**-.75,
                  lambda x: -.1875*U*(.1+x)**-1.75),
        "mild": (lambda x: U*(1 - .05*x), lambda x: -.05*U + 0*x,
                 lambda x: 0*x),
        "howarth": (lambda x: U*(1 - x), lambda x: -U + 0*x,
                    lambda x: 0*x),
        "curved": (lambda x: U*(1 - .3*x*x), lambda x: -.6*U*x,
                   lambda x: -.6*U + 0*x),
        "wave": (lambda x: U*(1 + .05*np.sin(6*x)),
                 lambda x: .3*U*np.cos(6*x),
                 lambda x: -1.8*U*np.sin(6*x)),
        "decay": (lambda x: U*np.exp(-.4*x), lambda x: -.4*U*np.exp(-.4*x),
                  lambda x: .16*U*np.exp(-.4*x)),
        "rise": (lambda x: U*np.exp(2*x), lambda x: 2*U*np.exp(2*x),
                 lambda x: 4*U*np.exp(2*x)),
    }
    return f[name]


ALL = ["flat", "accel", "wedge", "mild", "howarth", "curved", "wave",
       "decay", "rise"]
