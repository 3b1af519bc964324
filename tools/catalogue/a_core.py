P("C01", "File comparison reports every real difference and only real ones",
  """Comparing two files, or two in-memory datasets, reports a difference exactly when they differ in structure,
  attributes or data beyond the requested tolerance, and never when one is a faithful copy of the other.
  Differences that were asked to be ignored are not reported, and each report names what differs.""",
  "pairs of files and of nested values, with one or several independent edits applied to a copy: dimensions, "
  "variables, groups, attributes of any type, units, masks, values inside and outside the tolerances",
  "Tests compare a handful of fixed files with one edit each; the guarantee is about every structure, type and edit.",
  "improver/utilities/compare.py improver/cli/compare.py",
  [("structure, attribute and data comparison", "improver/utilities/compare.py:compare_netcdf, compare_attributes, compare_data")],
  ["improver.utilities.compare", "improver compare"],
  """A generator writes files with the real netCDF4 library and applies known edits; an independent model of the
  files decides whether a difference must be reported, and which variable it names.""", "compare_files")
P("C02", "Sliding windows and box sums cover exactly the neighbours they claim",
  """The rolling window view of an array holds at each position exactly the elements around that position, and padded
  windows extend it by the documented edge rule.  Box sums equal the sum over the box at every position, for any box
  size that fits, whatever the rank of the array and the arithmetic type, and the original array is never altered.""",
  "arrays of any rank, size, type and memory layout, box sizes, padding modes and constants",
  "Tests use one small fixed array per function; indexing errors appear at other sizes, ranks or box shapes.",
  "improver/utilities/neighbourhood_tools.py",
  [("strided view and cumulative sums", "improver/utilities/neighbourhood_tools.py:rolling_window, pad_and_roll, pad_boxsum, boxsum")],
  ["rolling_window", "pad_and_roll", "boxsum", "pad_boxsum"],
  """Explicit loops over windows compared with the view, and exact integer or float64 sums compared with the box sums;
  writes through the view must be refused.""", "windows")
P("C03", "Commands hand arguments, pipelines and results on faithfully",
  """A command run from the command line or chained with others gives the same result as calling its function with the
  same inputs, whatever the nesting, argument form or number of inputs.  Text arguments are converted to the documented
  type or refused, output is saved only when asked for, and every catalogued command or plugin exists.""",
  "command lines, nested bracket pipelines, argument values, input lists, radius and lead-time lists, histories of use",
  "Tests exercise a few hand-picked command lines; nesting and argument forms combine freely.",
  "improver/cli/__init__.py improver/api/__init__.py improver/utilities/cli_utilities.py improver/cli/nbhood.py",
  [("argument conversion, command chaining", "improver/cli/__init__.py:with_output, process_nested_args, execute_command"),
   ("catalogue of plugins", "improver/api/__init__.py")],
  ["improver.cli.main", "improver.api"],
  """Random pipelines are executed both through the command dispatcher and by an independent interpreter of the same
  argument list; the results, files and streams are compared.""", "cli_io", over=("inputs", "programs", "histories"))
P("C04", "Averages of directions respect the circle",
  """Converting angles to unit vectors and back returns the same direction in [0, 360), and the ensemble mean direction is
  the direction of the vector mean, unaffected by rotating every input, by member order or by earlier use.  Only where the
  members cancel is the direction replaced by the documented substitute.""",
  "angle fields including 0/360 wrap, calm opposites, masks, single members and repeated use of one calculator",
  "Tests sample a few angles; wrap-around and cancellation happen at specific values and histories.",
  "improver/utilities/complex_conversion.py improver/wind_calculations/wind_direction.py",
  [("complex representation of angles", "improver/utilities/complex_conversion.py:deg_to_complex, complex_to_deg"),
   ("ensemble mean, r values, confidence", "improver/wind_calculations/wind_direction.py:WindDirection")],
  ["deg_to_complex", "complex_to_deg", "WindDirection"],
  """Trigonometric vector means in float64 are the oracle; rotation, permutation and re-use relations are monitored.""",
  "angles", over=("inputs", "histories"))
P("C05", "Saving and loading keeps data and metadata, and a failed save leaves no file",
  """What is saved and loaded again has the same values, masks, types, coordinates and attributes, in the standard
  dimension order, and selections while loading return exactly the matching data.  A save that fails at any point leaves
  the previous file, or none, never a partial one, and data violating the mandatory type and unit rules is refused.""",
  "cubes of every kind the system writes, lists of cubes, load constraints, compression and precision options, and a "
  "failure injected at every step of the save",
  "Tests save a few cubes and never fail in the middle of a save.",
  "improver/utilities/save.py improver/utilities/load.py improver/metadata/check_datatypes.py",
  [("atomic rename, attribute handling", "improver/utilities/save.py:save_netcdf"),
   ("load and dimension order", "improver/utilities/load.py:load_cube, load_cubelist"),
   ("mandatory standards", "improver/metadata/check_datatypes.py:check_mandatory_standards")],
  ["save_netcdf", "load_cube", "load_cubelist", "files on disk"],
  """Round trips are compared attribute by attribute; faults are injected into the writer, the rename and the
  file system calls, and the directory is inspected after each.""", "cli_io", over=("inputs", "crash_points", "fault_sequences"))
P("C06", "Thresholding gives the fraction of members satisfying the condition",
  """Each output value is the fraction of valid members at that point (or within the stated distance) that satisfy the
  comparison with that threshold, ramping linearly across the stated bounds when the threshold is fuzzy.  The output states
  the thresholds, comparison, units and radii that were used next to the values they produced, whatever order they were
  given in, and points with no valid member are masked.""",
  "fields, masks, units, comparison operators, threshold lists in any order, fuzzy factors and bounds, vicinity radii, "
  "land masks, collapse options, latitude-dependent thresholds, and repeated use",
  "Tests place one feature in a zero field; order, masks, units and options combine.",
  "improver/threshold.py improver/cli/threshold.py",
  [("truth values, fuzzy ramp, accumulation over members", "improver/threshold.py:Threshold"),
   ("latitude dependence", "improver/threshold.py:LatitudeDependentThreshold")],
  ["Threshold", "LatitudeDependentThreshold"],
  """A point-by-point float64 recalculation of the fraction with ramps and vicinity maxima; complementary operators must
  sum to one, probabilities must be ordered by threshold, and contradictory settings refused.""",
  "thresholds", over=("inputs", "configurations", "histories"))
P("C07", "Vicinity maxima and grid geometry use the true distances and surfaces",
  """The maximum in the vicinity of a point is taken over exactly the valid points within the stated distance, on the same
  surface when a land mask is given, and invalid points stay invalid.  Grid spacings, distances, differences and gradients
  equal those computed from the coordinates, and unequal or unusable grids are refused.""",
  "fields of any numeric type, masks, land masks, radii, grids in metres or degrees, wrap-around longitudes",
  "Tests use one hot point in a small grid.",
  "improver/utilities/spatial.py improver/cli/vicinity.py",
  [("maximum in vicinity", "improver/utilities/spatial.py:maximum_within_vicinity, OccurrenceWithinVicinity"),
   ("distances and gradients", "improver/utilities/spatial.py:calculate_grid_spacing, DistanceBetweenGridSquares, DifferenceBetweenAdjacentGridSquares, GradientBetweenAdjacentGridSquares")],
  ["OccurrenceWithinVicinity", "maximum_within_vicinity", "GradientBetweenAdjacentGridSquares"],
  """Loops over pairs of points decide the vicinity; distances are recomputed from coordinates by great-circle or plane
  geometry.""", "thresholds")
