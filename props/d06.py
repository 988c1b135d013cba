from .dreg import harnesses_for
SPECIAL = {
    "FuselageWeight_JetTransport": [dict(), dict(name="doors", opts=dict(K_door=1.12, K_lg=1.12)), dict(name="door", opts=dict(K_door=1.06))],
}


def harnesses(tier):
    return harnesses_for(["openconcept.weights"], tier, SPECIAL)
