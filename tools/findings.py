#!/usr/bin/env python3
"""Regenerate KNOWN_FINDINGS.json: the defects repaired by fix: commits in /repo."""
import json
import os

# (property, commit, what failed)
FIXED = [
    ("P01", "56c488a", "reading ranges of a chunked big-endian dataset raised instead of returning the rows"),
    ("P03", "1a54e41", "cells written out of order without particles of the first type gave unsorted ranges: rows were lost"),
    ("P04", "76f9a00", "the second region of a union was ignored when the first mask was boolean"),
    ("P08", "e4e25d8", "subsets of files with empty datasets could not be written"),
    ("P10", "549f92e", "datasets independent of the scale factor were written with a scale-factor exponent of 1"),
    ("P10", "584b306", "a physical box was stored as if comoving"),
    ("P16", "f865e07", "comoving operands mixed with data that cannot be comoving were not converted"),
    ("P16", "5a3ae76", "the compression of results was a tuple instead of the string"),
    ("P16", "6c83e3a", "joining arrays compared the cosmo_factor of only the first arrays"),
    ("P16", "01c32b5", "numpy.var kept the cosmo_factor instead of squaring it"),
    ("P16", "e246bb2", "singular values of numpy.linalg.svd came without cosmology"),
    ("P16", "987f295", "numpy.einsum did not multiply the cosmo_factors of its operands"),
    ("P16", "18b4778", "numpy.select lost the cosmology of the choices"),
    ("P16", "b72f26a", "numpy.average mixed frames of values and weights"),
    ("P16", "6374be6", "numpy.histogram_bin_edges failed with given bin edges"),
    ("P16", "541896f", "numpy.where with only a condition failed"),
    ("P19", "53b2ef8", "copyto, fill_diagonal, place, put and putmask converted their source array in place"),
    ("P16", "56ea2c7", "numpy.block attached a list as the cosmo_factor"),
    ("P16", "0fef0d4", "bins of density histograms came with the frame and cosmo_factor of other data"),
    ("P17", "0c07c28", "an array squeezed to a scalar lost its cosmology"),
    ("P15", "31efb05", "x**0 kept a dependence on the scale factor"),
    ("P16", "19b8e8b", "numpy.digitize compared values and bins of different frames"),
    ("P16", "32e4695", "copying into an array converted the wrong way and changed the type"),
    ("P16", "5dcd6fd", "numpy.choose mixed choices of different frames"),
    ("P18", "f718062", "arrays from astropy and pint quantities had no valid_transform"),
    ("P18", "ef82d78", "scale_factor with bypass_validation raised"),
    ("P18", "094f93f", "creating an array from a cosmo_array with another frame converted the input in place"),
    ("P18", "31f3ad7", "a cosmo_factor given when creating an array from a cosmo_array was ignored"),
    ("P14", "18d244a", "two cosmo_factors with different expressions compared equal when their values coincide"),
    ("P16", "a133c7f", "x[i] = y of another frame stored the number without converting it"),
    ("P13", "6e6a80c", "to() between frames failed on integer arrays"),
    ("P15", "66c8407", "maximum and minimum of data with and without cosmology worked in one order only"),
    ("P15", "76c6492", "interpolation coordinates of different dependence were accepted"),
    ("P18", "b014bd0", "inputs of another frame were relabelled, not converted, to the frame requested"),
    ("P21", "2f259a3", "sub-sampled backends lost small kernels at the right and upper pixel edges"),
    ("P21", "a43c1c0", "renormalised and sub-sampled kernels were normalised over too few pixels"),
    ("P23", "ef32907", "kernels never reached the last row and column of slices and volume renders"),
    ("P22", "e2e730a", "visualising wrapped the coordinates of the dataset in place"),
    ("P22", "95d275d", "projections of regions that are not square had the wrong norm"),
    ("P27", "638f99a", "vectors along the axis gave a matrix of NaN"),
    ("P25", "eeba588", "particles at the edge of the (folded) box were written outside the deposition grid"),
    ("P21", "96ba75c", "dithered kernels were evaluated at one place and deposited at another"),
    ("P22", "0b007e3", "valid_transform and physical flags were arrays, so results could not be compared"),
    ("P24", "aa3a01d", "flattened renders omitted periodic copies in small boxes"),
    ("P24", "481c5be", "scatter_parallel of flattened voxels returned a grid of the wrong size"),
    ("P25", "a1e35b3", "physical coordinates were deposited in the comoving box"),
    ("P25", "0287908", "stitched folded power spectra had the wrong cosmo_factor"),
    ("P25", "90dd049", "foldings without modes in the wanted range raised"),
    ("P27", "96b75ee", "single-precision vectors near the axis gave NaN or a wrong angle"),
    ("P26", "68ffded", "smoothing lengths of physical coordinates used the comoving box"),
    ("P30", "62b02cb", "two-dimensional colour maps failed on lists"),
    ("P30", "3417dff", "colour maps from images without an alpha channel failed"),
    ("P30", "42624b9", "render_voxels_to_array failed on renders that are not cubes"),
    ("P20", "3b2902b", "columns whose first value looks like an integer raised on, or truncated, later decimals"),
    ("P02", "b7b2386", "the description of a field depended on whether a mask was used"),
    ("P16", "3b39431", "numpy functions given an out array of another frame returned wrong frames"),
    ("P16", "5255dfc", "sum, max and min with an initial value of another frame mixed frames"),
    ("P16", "adfa56a", "concatenate, stack and similar left the frame of an out array wrong"),
    ("P01", "4b0ea6e", "chunked half-precision fields could not be loaded through a mask (numba has no float16)"),
    ("P16", "212f7e8", "ranges and edges of histograms given in another frame were not converted, those of histogram2d and histogramdd not usable"),
    ("P15", "7a4860c", "powers with array exponents, and numbers raised to cosmology arrays, got an array or None as cosmo_factor"),
    ("P08", "6113af1", "write_subset raised on two-dimensional datasets with a single column"),
    ("P10", "efecc01", "fields computed with powers (e.g. the cube root of a volume) were written with scale-factor exponent 0"),
]

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(HERE, "KNOWN_FINDINGS.json"), "w") as f:
    json.dump(
        {
            "findings": [
                {"property": p, "status": "fixed", "commit": c, "what": f"fixed: property={p} {c} {w}"}
                for p, c, w in FIXED
            ]
        },
        f,
        indent=1,
    )
    f.write("\n")
