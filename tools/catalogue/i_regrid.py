P("C35", "Regridding takes each value from the right surroundings",
  """Each target point takes the nearest source point, or the bilinear combination of its four; with land and sea masks only sources of its own
  surface type: three corners, inverse distances, the eight nearest within the vicinity, else the plain answer.
  Points outside the source domain are missing, masked sources of no weight mask nothing, and other coordinates, cell methods and units are kept.
  Unknown modes, missing or unmatched land masks, projected or uneven sources are refused.""",
  "grids that coincide, overlap or are projected, spacings with rounding, descending axes, dimensions in any order, masks",
  "Tests use a few fixed grids.",
  "improver/regrid/bilinear.py improver/regrid/nearest.py improver/regrid/idw.py improver/regrid/grid.py improver/regrid/landsea2.py improver/regrid/landsea.py",
  [("process", "improver/regrid/landsea2.py:RegridWithLandSeaMask"), ("cells", "improver/regrid/bilinear.py:basic_indexes"),
   ("entry", "improver/regrid/landsea.py:RegridLandSea")],
  ["RegridLandSea", "RegridWithLandSeaMask"],
  """Every target point is computed on its own in float64 from the source positions on the ellipsoid; ties and points on the lines between
  cells are not judged when surface types are mixed.""", "regridding")
P("C36", "Coastal points are corrected from the nearest point of their own kind",
  """After nearest regridding, a point whose land-sea type differs from its source takes the value of the nearest point of its own kind within the
  vicinity and all others keep theirs, in every slice and on each use of the plugin. A grid is accepted as a cutout of another
  exactly when its points are a contiguous part of it in the same coordinate system.""",
  "land masks at random, masks of larger domains, leading dimensions, vicinities, shifted, thinned and larger cutouts",
  "Tests use one small grid.",
  "improver/regrid/landsea.py",
  [("adjust", "improver/regrid/landsea.py:AdjustLandSeaPoints"), ("cutout", "improver/regrid/landsea.py:grid_contains_cutout")],
  ["RegridLandSea", "AdjustLandSeaPoints", "grid_contains_cutout"],
  """Every point is compared with a search over all points of its kind.""", "regridding")
