"""Catalogue of the solvers with their options, in terms of the specification."""
import numpy as np

from env import core, swe, finite_volume, SWE, SCALAR_FV, FE, swe_solver, SweCellData, CellData

GETTERS = swe_solver.SHALLOW_WATER_FLUX_GETTER
PLAIN = ["llf", "low-order", "central", "es", "es1"]
ODE = {
    "euler": core.ForwardEuler,
    "heun": core.Heun,
    "ssp3": core.StrongStabilityPreservingRungeKutta3,
    "rk8": core.RungeKutta8,
}


class Scheme:
    """A shallow water solver: name and base flux (as in the specification),
    class and options."""

    def __init__(self, name, sub="", slope=0.0, **kw):
        self.name, self.sub, self.gamma, self.kw = name, sub, slope, kw

    @property
    def label(self):
        return "/".join([self.name] + ([self.sub] if self.sub else [])
                        + (["gamma=%g" % self.gamma] if self.name == "antidiffusion" else []))

    @property
    def cls(self):
        return SWE[self.name]

    def flux(self, bench, space, bathymetry=None):
        """The node flux through the flux getter of the scheme."""
        if self.name == "mcl":
            getter = swe_solver.MCLFluxGetter(self.kw.get("flux_getter"))
        elif self.name == "lw":
            getter = swe_solver.LaxWendroffFluxGetter()
        else:
            getter = GETTERS[self.name]
        return getter(bench, space, bathymetry)


def plain_schemes():
    return [Scheme(n) for n in PLAIN]


def mcl_schemes():
    return [Scheme("mcl", "central")] + [Scheme("mcl", s, flux_getter=GETTERS[s]) for s in PLAIN]


def antidiffusion_schemes():
    out = [Scheme("antidiffusion", "llf", 0.1)]
    for s, g in [("llf", 0.0), ("llf", 0.25), ("llf", -0.1), ("central", 0.1), ("es", -0.2), ("es1", 0.05),
                 ("low-order", 0.1), ("low-order", 0.0)]:
        out.append(Scheme("antidiffusion", s, g, gamma=g, flux_getter=GETTERS[s]))
    return out


def all_schemes():
    return plain_schemes() + [Scheme("lw")] + mcl_schemes() + antidiffusion_schemes()


def params(s, g, dx, dt):
    return [float(g), float(dx), float(dt), float(s.gamma)]
