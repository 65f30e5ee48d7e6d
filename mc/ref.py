"""
Independent reference formulation of the laminar and turbulent methods.

Written from the documented equations: Thwaites' method (linear and
nonlinear form), its four published data fits, Head's entrainment method with
the Ludwieg-Tillman skin friction.  Integrated with an eighth order method at
tolerances far below the ones the implementation uses.
"""
import numpy as np
from scipy.integrate import solve_ivp

# Thwaites' tabulated data (modern values, as in White and Edland)
TAB_LAM = [-.090, -.088, -.086, -.084, -.080, -.076, -.072, -.068, -.064,
           -.060, -.056, -.052, -.048, -.040, -.032, -.016, 0.0, .016, .032,
           .048, .064, .080, .100, .120, .140, .200, .250]
TAB_S = [0.0, .015, .027, .038, .056, .072, .085, .095, .104, .113, .122,
         .130, .138, .153, .168, .195, .220, .244, .268, .291, .313, .333,
         .359, .382, .404, .463, .500]
TAB_H = [3.55, 3.49, 3.44, 3.39, 3.30, 3.22, 3.15, 3.09, 3.04, 2.99, 2.94,
         2.90, 2.87, 2.81, 2.75, 2.67, 2.61, 2.55, 2.49, 2.44, 2.39, 2.34,
         2.28, 2.23, 2.18, 2.07, 2.00]


def _notaknot(x, y):
    """Coefficients of the not-a-knot cubic spline, solved directly."""
    x = np.array(x)
    y = np.array(y)
    n = len(x)
    h = np.diff(x)
    a = np.zeros((n, n))
    b = np.zeros(n)
    for i in range(1, n-1):        # second derivatives m
        a[i, i-1:i+2] = h[i-1], 2*(h[i-1]+h[i]), h[i]
        b[i] = 6*((y[i+1]-y[i])/h[i] - (y[i]-y[i-1])/h[i-1])
    a[0, :3] = h[1], -(h[0]+h[1]), h[0]
    a[-1, -3:] = h[-1], -(h[-2]+h[-1]), h[-2]
    m = np.linalg.solve(a, b)

    def val(q, nu=0):
        i = min(max(int(np.searchsorted(x, q)) - 1, 0), n-2)
        t = q - x[i]
        c1 = (y[i+1]-y[i])/h[i] - h[i]*(2*m[i]+m[i+1])/6
        c3 = (m[i+1]-m[i])/(6*h[i])
        if nu == 0:
            return y[i] + t*(c1 + t*(m[i]/2 + t*c3))
        return c1 + t*(m[i] + 3*t*c3)
    return val


_S = _notaknot(TAB_LAM, TAB_S)
_H = _notaknot(TAB_LAM, TAB_H)


def _white_h(z):
    return 2 + 4.14*z - 83.5*z**2 + 854*z**3 - 3337*z**4 + 4576*z**5


def _white_hp(z):
    return -(4.14 - 167*z + 2562*z**2 - 13348*z**3 + 22880*z**4)


FITS = {   # S, H, H', lambda range
    "Spline": (_S, _H, lambda q: _H(q, 1), -.09, .25),
    "White": (lambda q: (q + .09)**.62 if q > -.09 else 0.0,
              lambda q: _white_h(.25-q), lambda q: _white_hp(.25-q),
              -.09, np.inf),
    "Cebeci-Bradshaw": (
        lambda q: (.22 + 1.402*q + .018*q/(.107+q)) if q < 0
        else .22 + 1.57*q - 1.8*q*q,
        lambda q: (2.088 + .0731/(.14+q)) if q < 0
        else 2.61 - 3.75*q + 5.24*q*q,
        lambda q: -.0731/(.14+q)**2 if q < 0 else -3.75 + 10.48*q,
        -.1, .1),
    "Drela": (
        lambda q: .22 + 1.52*q - 5*q**3 - .072*q*q/(q+.18)**2,
        lambda q: 2.61 - 4.1*q + 14*q**3 + .56*q*q/(q+.18)**2,
        lambda q: -4.1 + 42*q*q + .2016*q/(q+.18)**3, -.09, np.inf),
}

# a made up fit, given to the code as callables
CUSTOM = (lambda q: .22 + 1.5*q, lambda q: 2.6 - 4*q + 5*q**2,
          lambda q: -4 + 10*q)
FITS["custom3"] = (*CUSTOM, -np.inf, np.inf)
FITS["custom2"] = FITS["custom3"]


def fit_arg(name):
    """What to pass to the code to select this fit."""
    if name == "custom3":
        return CUSTOM
    if name == "custom2":
        return CUSTOM[:2]
    return name


def S(fit, lam):
    f = FITS[fit]
    return f[0](min(max(lam, f[3]), f[4]))


def H(fit, lam):
    f = FITS[fit]
    return f[1](min(max(lam, f[3]), f[4]))


def Hp(fit, lam):
    f = FITS[fit]
    return f[2](min(max(lam, f[3]), f[4]))


def thwaites(kind, fit, u, du, nu, dm0, x0, x1, stop=True):
    """Momentum thickness squared over viscosity along x, and separation."""
    def rhs(x, z):
        lam = z[0]*du(x)
        if callable(kind):
            return [kind(lam)/u(x)]
        if kind == "lin":
            return [(.45 - 6*lam)/u(x)]
        return [2*(S(fit, lam) - lam*(H(fit, lam)+2))/u(x)]

    def sep(x, z):
        lam = z[0]*du(x)
        return min(S(fit, lam), lam - FITS[fit][3])
    sep.terminal = stop
    sep.direction = -1
    return solve_ivp(rhs, [x0, x1], [dm0**2/nu], method="DOP853",
                     dense_output=True, events=[sep], rtol=1e-11,
                     atol=1e-300, first_step=abs(x1-x0)*1e-4,
                     max_step=abs(x1-x0)/50)


def h1(h):
    """Entrainment shape factor from displacement shape factor."""
    if h <= 1.6:
        return 3.3 + .8234/(h-1.1)**1.287
    return 3.32254659218600974 + 1.5501/(h-.6778)**3.064


def h1p(h):
    if h <= 1.6:
        return -1.287*.8234/(h-1.1)**2.287
    return -3.064*1.5501/(h-.6778)**4.064


def ludwieg_tillman(re, h):
    return .246*10**(-.678*h)*re**(-.268)


def head_rhs(u, du, nu):
    def rhs(x, y):
        d, h = y
        h = max(h, 1.11)
        ue, due = u(x), du(x)
        cf = ludwieg_tillman(ue*d/nu, h)
        dd = cf/2 - d*(2+h)*due/ue
        # d(u d H1)/dx = u F
        ent = .0306*(h1(h)-3)**-.6169
        dh1 = (ent - h1(h)*(dd + d*due/ue))/d
        return [dd, dh1/h1p(h)]
    return rhs


def head(u, du, nu, dm0, h0, crit, x0, x1):
    def sep(x, y):
        return crit - y[1]
    sep.terminal = True
    return solve_ivp(head_rhs(u, du, nu), [x0, x1], [dm0, h0],
                     method="DOP853", dense_output=True, events=[sep],
                     rtol=1e-11, atol=1e-14, max_step=abs(x1-x0)/50)
