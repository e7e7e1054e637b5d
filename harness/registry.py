"""which trace specifications, generators and design models decide each property"""
import conv
import opchecks
import protocol
import solvers


class Prop:
    def __init__(self, runs, mc=lambda tier: [], assumptions=()):
        self.runs, self.mc, self.assumptions = runs, mc, list(assumptions)


NUMERIC = ["real arithmetic is IEEE double up to the stated tolerances", "inputs sampled, seeded by VERIF_SEED"]

PROPS = {
    "C01": Prop([("OpTrace", opchecks.C01)], assumptions=NUMERIC),
    "C02": Prop([("OpTrace", opchecks.C02)], assumptions=NUMERIC),
    "C03": Prop([("OpTrace", opchecks.C03)], assumptions=NUMERIC),
    "C04": Prop([("OpTrace", opchecks.C04)], assumptions=NUMERIC),
}
for _p in ("C10", "C11", "C12", "C13", "C14", "C15"):
    PROPS[_p] = Prop([("SolverTrace", getattr(solvers, _p))], assumptions=NUMERIC)

NOTE = ("The specification states the exact denotation of every call; TLC accepts or rejects each recorded call of the real code as a transition of it. "
        "Bounded: seeded sampling of configurations and inputs. Trusted: TLC, the IEEE-double arithmetic override in java/, the recorder.")
NOTES = {}
PROPS["C17"] = Prop([("SolverTrace", protocol.C17)], mc=lambda tier: [("Protocol", "Protocol.cfg")], assumptions=NUMERIC)
PROPS["C18"] = Prop([("ConvTrace", conv.C18)], assumptions=NUMERIC)
import algebra
PROPS["C05"] = Prop([("OpTrace", algebra.C05)], mc=lambda tier: [("Algebra", "Algebra.cfg" if tier == "quick" else "AlgebraDeep.cfg")], assumptions=NUMERIC)
import grads
PROPS["C06"] = Prop([("OpTrace", grads.C06)], assumptions=NUMERIC)
import valid
PROPS["C07"] = Prop([("OpTrace", valid.C07)], mc=lambda tier: [("Valid", "Valid.cfg")], assumptions=["steps that are NaN are not considered"])
import hist
PROPS["C08"] = Prop([("OpTrace", hist.C08)], mc=lambda tier: [("History", "History3.cfg" if tier == "quick" else "History4.cfg")], assumptions=NUMERIC)
import sums
PROPS["C16"] = Prop([("OpTrace", sums.C16)], mc=lambda tier: [("Dykstra", "Dykstra_cyclic_all.cfg"), ("Dykstra", "Dykstra_parallel_all.cfg"), ("Dykstra", "Dykstra_cyclic_x.cfg", "StopsRight")], assumptions=NUMERIC)
import frame
PROPS["C09"] = Prop([("FrameTrace", frame.C09)], mc=lambda tier: [("Frame", "Frame_copy.cfg"), ("Frame", "Frame_warm.cfg", "Answers"), ("Frame", "Frame_data.cfg", "Intact"), ("Frame", "Frame_inout.cfg", "Intact")],
                    assumptions=["inputs sampled, seeded by VERIF_SEED"])
import selftest
PROPS["C19"] = Prop([("SelfTestTrace", selftest.C19)], mc=lambda tier: [("SelfTest", "SelfTest_honest.cfg")] + [("SelfTest", "SelfTest_%s.cfg" % p, "temporal") for p in ("first", "short", "blind")],
                    assumptions=["operators under test are separable quadratics and affine maps", "a helper's draws are fair enough to reach every entry in 300 draws"])
