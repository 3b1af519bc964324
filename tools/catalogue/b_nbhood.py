P("C08", "Neighbourhood results are the mean, sum or percentile of the neighbours",
  """Each output value is the mean (or sum, or percentile) of exactly the valid points within the stated square or circle,
  weighted as stated, with nothing from outside the domain, from masked points or from hidden values under a mask.  The
  radius is the one stated for the forecast's lead time, angles are averaged as vectors, and the grid, dimension order and
  coordinates of the input are kept.""",
  "fields with large uniform areas, masks, mask files, radii per lead time, shapes, weighting, dimension orders, percentile lists",
  "Tests use small fields with one non-zero point in the middle; errors arise at edges, in uniform areas and with masks.",
  "improver/nbhood/nbhood.py improver/nbhood/__init__.py improver/cli/nbhood.py",
  [("means with trimming of uniform areas", "improver/nbhood/nbhood.py:NeighbourhoodProcessing"),
   ("percentiles", "improver/nbhood/nbhood.py:GeneratePercentilesFromANeighbourhood")],
  ["NeighbourhoodProcessing", "GeneratePercentilesFromANeighbourhood", "MetaNeighbourhood"],
  """Loops over every point and neighbour in float64 give the expected value; masks, metadata, repeated use and refusals are
  monitored too.""", "nbhood", over=("inputs", "configurations", "histories"))
P("C09", "Neighbourhoods restricted to a class of points use only that class",
  """When a set of masks divides the domain, the neighbourhood value for each class is computed from that class's valid points
  only, and the classes are combined with the given weights renormalised over classes that have a value.  This holds for every
  slice of the input separately, whatever its mask, lead time or similarity to the previous slice, and land and sea are never mixed.""",
  "band masks, weights, masked inputs, repeated slices, several lead times with their own radii",
  "Tests use one slice or unmasked slices, so reuse between slices and per-slice radii are never seen.",
  "improver/nbhood/use_nbhood.py improver/cli/nbhood_land_and_sea.py improver/cli/nbhood_iterate_with_mask.py",
  [("iteration over masks, reuse of the previous slice, collapse", "improver/nbhood/use_nbhood.py:ApplyNeighbourhoodProcessingWithAMask")],
  ["ApplyNeighbourhoodProcessingWithAMask", "improver nbhood-land-and-sea"],
  """Per band and slice loops in float64, weighted means over bands with a value, and comparison of every coordinate with the
  input.""", "nbhood", over=("inputs", "histories"))
P("C10", "The recursive filter smooths as its coefficients say, apart from masked points",
  """Filtering gives the result of the documented forward and backward recursion with the given coefficients, stays within the
  range of the data, and neither changes masked points' status nor lets their values reach valid ones.  Coefficients derived from
  orography lie within the stated limits, follow the gradient law and vanish where the mask says, and using coefficients leaves
  them unchanged.""",
  "fields, masks with hidden values, coefficient fields, numbers of iterations, halo widths, orographies and mask modes",
  "Tests filter one point source on a small grid.",
  "improver/nbhood/recursive_filter.py improver/generate_ancillaries/generate_orographic_smoothing_coefficients.py",
  [("recursion, padding, masks", "improver/nbhood/recursive_filter.py:RecursiveFilter"),
   ("coefficients", "improver/generate_ancillaries/generate_orographic_smoothing_coefficients.py:OrographicSmoothingCoefficients")],
  ["RecursiveFilter", "OrographicSmoothingCoefficients"],
  """Line-by-line float64 recursion on a mirrored field; range, mask, input and second-use monitors.""", "nbhood",
  over=("inputs", "histories"))
P("C11", "Padding a grid and trimming it again restores it",
  """Padding adds exactly the requested number of cells on every side, filled as documented and with coordinates and bounds
  continuing the grid, and removing the same halo gives back the original data and coordinates.  Halo widths given as distances
  are converted per axis, and the order and number of dimensions survive.""",
  "grids with equal and unequal spacings, halo widths (including none on one axis), padding methods, masks, leading dimensions",
  "Tests pad one grid with equal spacing.",
  "improver/utilities/pad_spatial.py",
  [("padding and trimming", "improver/utilities/pad_spatial.py")],
  ["pad_cube_with_halo", "remove_cube_halo", "create_cube_with_halo", "remove_halo_from_cube"],
  """Index arithmetic recomputed independently, inverse relation pad/trim, coordinate arithmetic.""", "nbhood")
