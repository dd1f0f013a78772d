"""Bounded symbolic execution of the glmtools sources.

The functions under /repo are executed as they are (compiled from the current
working tree on every run) on numpy/xarray/pandas containers whose elements are
z3 terms.  Python-level branches on symbolic values fork the path; every
property is an assertion discharged by the solver at the end of each path.
"""
