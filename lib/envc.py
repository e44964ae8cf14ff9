"""engine for one configuration (built once per process)"""
import ir, axioms
_c = {}
def engine(cfg):
    if cfg not in _c:
        e = axioms.make(ir.Module(cfg)); e.run(); _c[cfg] = e
    return _c[cfg]
