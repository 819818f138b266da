"""Functions whose loops get invariant hooks (see loops.py)."""
TRANSFORM = {
    'thetis.solver2d': {'FlowSolver2d.create_iterator', 'FlowSolver2d.iterate'},
    'thetis.solver': {'FlowSolver.iterate', 'FlowSolver.create_iterator'},
}
