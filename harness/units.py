"""Output units for checks that compute in the units of the data (Mpc/h, 1e10 Msun/h)."""
import numpy as np

h = 0.6774
MPC, SUN = 3.085678e24, 1.989e33
OUTS = [("Mpc/h", "E+10Msun/h", MPC / h, 1e10 * SUN / h), ("kpc", "Msun", MPC / 1e3, SUN), (1.2345e20, 5e30, 1.2345e20, 5e30),
        ("pc/h", "Msun/h", MPC / 1e6 / h, SUN / h), ("Mpc", "E+10Msun", MPC, 1e10 * SUN), ("Gpc/h", "Msun", MPC * 1e3 / h, SUN)]


def ops(s):
    if not s.get("unit"):
        return []
    u = OUTS[s["unit"]]
    return [("fn", "updateOutUnitSystem", [], dict(length_in_cm=u[0], mass_in_g=u[1], velocity_in_cm_per_s="km/s", little_h=h))]


def length(s):
    """A length of the data in the output unit of session s."""
    return OUTS[0][2] / OUTS[s.get("unit", 0)][2]


def mass(s):
    return OUTS[0][3] / OUTS[s.get("unit", 0)][3]


def shapes(s, cat):
    """A reported shape catalogue with its extents in the units of the data."""
    cat = np.array(cat)
    cat["d"] = cat["d"] / length(s)
    return cat


def density(s, rho):
    return np.asarray(rho) * length(s) ** 3 / mass(s)


def pick(k):
    return 1 + k // 4 % 5 if k % 4 > 1 else 0
