"""P16: numpy functions respect the physical meaning of cosmology arrays."""
from .. import funccheck as fc
from ..core import SubCheck

RULE = "an operand is comoving or the operands have different frames"
ASSUMPTIONS = ["functions whose units unyt computes incorrectly (hstack, argsort, unwrap, det of stacks, density histograms with weights) are outside the table",
               "functions in which unyt refuses different units of one dimension get operands in one unit"]
CHECKS = [SubCheck("functions", lambda: fc.case_(fc.split(False)), fc.run_value, quick=14000, thorough=250000, weight=4,
                   rule="numpy functions of the table against the same function of the physical SI values"),
          SubCheck("assign", fc.assign_case, fc.run_assign, quick=2500, thorough=40000,
                   rule="functions and item assignment that write into an array"),
          SubCheck("out", fc.out_case, fc.run_out, quick=2500, thorough=40000,
                   rule="functions and methods writing their result to an array given as out, in another frame, unit or exponent")]
QUICK_BUDGET = 50
