"""One function per property: which parts of the specification are model checked, which
behaviours of the real code are produced, and which trace specification judges them."""
from . import calls, color, dbscan, graphs, kmeans, neighbors, palette, pointspace, session

MC = "model_checking"
CHECKS = {}
for module in (neighbors, dbscan, kmeans, graphs, pointspace, color, palette, session, calls):
    for pid, fn in module.CHECKS.items():
        CHECKS[pid] = (fn, MC)
