P("C26", "Sites are matched to the right grid point",
  """A site inside the domain gets the nearest grid point, or, where constrained, the nearest land point or the point (on land) closest to it
  in altitude, among the given number of points within the search radius, falling back to the nearest point if there is none. Index, displacement,
  altitude, position and identifiers are recorded per site; sites outside are left out with a warning. Different grids, degrees on a regional grid and missing,
  repeated or long identifiers are refused.""",
  "regional and global grids, longitudes across the dateline, descending axes, all constraints, radii, node limits, no land, unset altitudes",
  "Tests use a few sites on constant grids.",
  "improver/spotdata/neighbour_finding.py improver/spotdata/build_spotdata_cube.py",
  [("search", "improver/spotdata/neighbour_finding.py:NeighbourSelection")],
  ["NeighbourSelection"],
  """The grid is searched exhaustively per site, by great-circle chords on global grids; near ties are skipped. Inputs and second use are monitored.""", "spotdata")
P("C27", "Spot forecasts carry the values and coordinates of their grid points",
  """Spot extraction takes every value, mask and two-dimensional coordinate from the grid point recorded for the site and method, keeping
  leading dimensions, other coordinates, cell methods and attributes other than those of the grid. Manipulation then yields the percentiles asked for,
  the mean of realizations, the lapse rate adjustment or the subset of sites. A method or grid that does not match is refused and inputs stay as they were.""",
  "leading dimensions of any kind and length, dimension orders, local times, masks, several methods in any order",
  "Tests use one grid with increasing numbers.",
  "improver/spotdata/spot_extraction.py improver/spotdata/spot_manipulation.py improver/spotdata/build_spotdata_cube.py improver/metadata/utilities.py",
  [("extraction", "improver/spotdata/spot_extraction.py:SpotExtraction"),
   ("manipulation", "improver/spotdata/spot_manipulation.py:SpotManipulation")],
  ["SpotExtraction", "SpotManipulation"],
  """Plain indexing and numpy percentiles give the expected values; coordinates, attributes and inputs are compared.""", "spotdata")
P("C28", "Spot forecasts move to the altitude of the site",
  """A temperature at a site changes by the displacement times the lapse rate, up to 50 m, and by the standard lapse rate beyond that. A height above ground
  changes by the displacement in its own units; a probability of height is interpolated to the thresholds shifted by the displacement, the end
  thresholds counting beyond them, each site and member by itself. Masks and metadata are kept, and other diagnostics, grids, heights or a single threshold are refused.""",
  "displacements around and beyond the limit, percentiles and members, above and below, units, single sites, masks",
  "Tests use a handful of sites.",
  "improver/spotdata/apply_lapse_rate.py improver/spotdata/height_adjustment.py improver/lapse_rate.py",
  [("temperature", "improver/spotdata/apply_lapse_rate.py:SpotLapseRateAdjust"),
   ("height", "improver/spotdata/height_adjustment.py:SpotHeightAdjustment"),
   ("adjustment", "improver/lapse_rate.py:compute_lapse_rate_adjustment")],
  ["SpotLapseRateAdjust", "SpotHeightAdjustment"],
  """Adjustments are computed per site in float64; metadata, inputs and refusals are monitored.""", "spotdata")
P("C29", "Lapse rates follow the local regression and move temperatures in height",
  """The lapse rate of a land point is the regression slope of temperature on height over the land points of its neighbourhood within the height difference,
  kept between the limits; it is the dry adiabatic rate at sea and where heights or temperatures do not vary. Applying it changes the temperature by
  the lapse rate times the height difference, up to 50 m, and by the standard rate beyond. Units and the order of dimensions
  do not matter; other grids are refused.""".replace("; it is", ", and it is"),
  "orographies and masks at random, neighbourhoods larger than the domain, members, units, dimension orders, limits",
  "Tests use 5x5 grids.",
  "improver/lapse_rate.py improver/utilities/mathematical_operations.py",
  [("regression", "improver/lapse_rate.py:LapseRate"),
   ("application", "improver/lapse_rate.py:ApplyGriddedLapseRate"),
   ("fit", "improver/utilities/mathematical_operations.py:fast_linear_fit")],
  ["LapseRate", "ApplyGriddedLapseRate"],
  """The regression is computed point by point in float64, with a bound for single-precision sums; metadata and inputs are monitored.""", "spotdata")
