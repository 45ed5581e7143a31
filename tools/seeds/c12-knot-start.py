PROPERTY = 'C12'
NEEDS = 'an impulse response basis over a time variable that does not start at zero'
BREAKS = 'the knots of convolved bases start at zero instead of the lower end of the declared range, so they are not evenly spaced over it'
EDITS = [('src/mssm/src/python/smooths.py', '        knots = np.linspace(min_c, max_c, ndx + 1 + 2 * deg)', '        knots = np.linspace(min(min_c, 0), max_c, ndx + 1 + 2 * deg)')]
DEMO = '''\
import numpy as np
from mssm.src.python.smooths import B_spline_basis
t = np.arange(60, dtype=float)
a = B_spline_basis(t, 0, 7, min_c=0.0, max_c=59.0, convolve=True)
b = B_spline_basis(t + 40, 0, 7, min_c=40.0, max_c=99.0, convolve=True)
assert np.abs(a - b).max() < 1e-8, np.abs(a - b).max()
'''
