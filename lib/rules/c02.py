"""C02: element accesses stay inside the object they index."""
from rules import bound
def run(cfg):
    P, m, S = bound.run_group(cfg, "C02", "element accesses")
    P.need("accesses", 60)
    return P
