from .dreg import harnesses_for

TITLE = "Aerodynamic, geometry and stability models supply exact derivatives"


def ysort(ins):
    """sections run from the (most negative) tip to the root at y = 0"""
    y = ins["y_sec"]
    return [("<", y[i], y[i + 1]) for i in range(y.size - 1)]


def ysort_full(ins):
    y = ins["y_sec"]
    return [("<", y[i], y[i + 1]) for i in range(y.size - 1)]


Y = {"y_sec": (None, 0), "x_LE_sec": (None, None)}
SPECIAL = {
    "SkinFrictionCoefficient_JetTransport": [dict(tol=1e-5)],
    "SectionPlanformMesh": [
        dict(dom=Y, pre=ysort, base={"y_sec": [-5.0]}),
        dict(name="2sec-unscaled", opts=dict(scale_area=False, num_x=2, num_y=3), dom=Y, pre=ysort, base={"y_sec": [-5.0]}),
        dict(name="3sec", opts=dict(num_sections=3, num_x=2, num_y=(2, 3)), dom=Y, pre=ysort, base={"y_sec": [-9.0, -4.0]}),
        dict(name="3sec-unscaled", opts=dict(num_sections=3, num_x=1, num_y=[3, 1], scale_area=False), dom=Y, pre=ysort,
             base={"y_sec": [-9.0, -4.0]}),
        dict(name="4sec", opts=dict(num_sections=4, num_x=1, num_y=(1, 2, 1)), dom=Y, pre=ysort,
             base={"y_sec": [-9.0, -5.0, -3.0]}),
    ],
    "TrapezoidalPlanformMesh": [dict(opts=dict(num_x=2, num_y=3)), dict(name="4x5", opts=dict(num_x=4, num_y=5)),
                                dict(name="1x1", opts=dict(num_x=1, num_y=1))],
    "ThicknessChordRatioInterp": [dict(), dict(name="3sec", opts=dict(num_sections=3, num_y=(2, 4))),
                                  dict(name="4sec-lin", opts=dict(num_sections=4, num_y=[1, 3, 2], cos_spacing=False))],
    "SectionLinearInterp": [dict(), dict(name="3sec", opts=dict(num_sections=3, num_y=(2, 4))),
                            dict(name="4sec-lin", opts=dict(num_sections=4, num_y=[1, 3, 2], cos_spacing=False))],
    "WaveDragFromSections": [dict(nns=(1,), dom=Y, pre=ysort, base={"y_sec": [-5.0]}),
                             dict(name="nn2", nns=(2,), perturb=False, dom=Y, pre=ysort, base={"y_sec": [-5.0]}, budget=120),
                             dict(name="3sec", opts=dict(num_sections=3), nns=(1,), perturb=False, dom=Y, pre=ysort, base={"y_sec": [-9.0, -5.0]}, budget=150),
                             dict(name="3sec-out", opts=dict(num_sections=3, idx_sec_end=1), nns=(1,), perturb=False, dom=Y, pre=ysort, base={"y_sec": [-9.0, -5.0]}, budget=150),
                             dict(name="4sec-mid", opts=dict(num_sections=4, idx_sec_start=1, idx_sec_end=2), nns=(1,), perturb=False, dom=Y, pre=ysort, base={"y_sec": [-9.0, -5.0, -2.0]}, budget=150),
                             dict(name="3sec-sub", opts=dict(num_sections=3, idx_sec_start=1, idx_sec_end=2, specify_area_norm=True), nns=(1,), perturb=False, dom=Y, pre=ysort, base={"y_sec": [-9.0, -5.0]}, budget=150)],
    "WingSweepFromSections": [dict(dom=Y, pre=ysort, base={"y_sec": [-5.0]}),
                              dict(name="4sec", opts=dict(num_sections=4, idx_sec_start=1, idx_sec_end=3), dom=Y, pre=ysort, base={"y_sec": [-9.0, -5.0, -2.0]}),
                              dict(name="3sec", opts=dict(num_sections=3, idx_sec_end=1), perturb=False, dom=Y, pre=ysort, base={"y_sec": [-9.0, -5.0]})],
    "WingAreaFromSections": [dict(dom=Y, pre=ysort, base={"y_sec": [-5.0]}),
                             dict(name="4sec", opts=dict(num_sections=4, idx_sec_start=1, idx_sec_end=3, chord_frac_start=0.2, chord_frac_end=0.7), perturb=False, dom=Y, pre=ysort, base={"y_sec": [-9.0, -5.0, -2.0]}),
                             dict(name="3sec", opts=dict(num_sections=3), perturb=False, dom=Y, pre=ysort, base={"y_sec": [-9.0, -5.0]})],
    "WingMACFromSections": [dict(dom=Y, pre=ysort, base={"y_sec": [-5.0]}),
                            dict(name="4sec", opts=dict(num_sections=4, idx_sec_start=1, idx_sec_end=3), perturb=False, dom=Y, pre=ysort, base={"y_sec": [-9.0, -5.0, -2.0]}),
                            dict(name="3sec", opts=dict(num_sections=3), perturb=False, dom=Y, pre=ysort, base={"y_sec": [-9.0, -5.0]})],
}


def harnesses(tier):
    return harnesses_for(["openconcept.aerodynamics", "openconcept.geometry", "openconcept.stability"], tier, SPECIAL,
                         skip=("OASDataGen", "VLMDataGen"))
