P("C54", "Standardised cubes meet the standard and describe the same data",
  """Standardising demotes dimensions of length one except realization, converts times to whole seconds and types to the standard, drops point-in-time cell methods, and makes exactly the
  changes of name, units, scalar coordinates and attributes asked for. Points below the surface become missing and nothing else changes. Copied attributes have the value of the template,
  whatever their type, and changes that would misdescribe data are refused.""",
  "times in minutes or hours of every type, bounds, integers with new units, dimensions in any order, a single realization, flags on some members, numeric attributes",
  "Tests use one cube with one change at a time.",
  "improver/standardise.py improver/utilities/copy_attributes.py improver/metadata/amend.py improver/metadata/check_datatypes.py",
  [("standardising", "improver/standardise.py:StandardiseMetadata"), ("copying", "improver/utilities/copy_attributes.py:CopyAttributes")],
  ["StandardiseMetadata.process", "CopyAttributes.process"],
  """The true times are kept before the cube is put in other units and types, and the standard cube must have them back exactly.""", "standard")

P("C55", "Orography bands, zone weights and land masks partition the points",
  """A point is in the band whose lower bound is below it and upper bound not below it, in any units, and in no other. Its zone weights are one at the middle of a band, a half at the edge,
  shared with the adjacent band and sum to one inside the range; sea points are excluded when a land mask is given. Interpolated land masks become land where at least a half; inputs
  other than the corrected mask are unchanged.""",
  "one band or many, heights on edges and mid-points, above and below all bands, all land and all sea, bands and heights in different units",
  "Tests use one 3x3 field.",
  "improver/generate_ancillaries/generate_ancillary.py improver/generate_ancillaries/generate_topographic_zone_weights.py",
  [("bands", "improver/generate_ancillaries/generate_ancillary.py:GenerateOrographyBandAncils"), ("land mask", "improver/generate_ancillaries/generate_ancillary.py:CorrectLandSeaMask"),
   ("weights", "improver/generate_ancillaries/generate_topographic_zone_weights.py:GenerateTopographicZoneWeights")],
  ["CorrectLandSeaMask", "GenerateOrographyBandAncils.process", "GenerateTopographicZoneWeights.process"],
  """Weights are computed point by point from the band edges.""", "ancils")

P("C56", "Orographic enhancement is the upstream weighted uplift of moist air",
  """Enhancement is zero where hills are low, air is dry or uplift is weak, and elsewhere the efficiency-scaled Gaussian mean, over the cells upwind within range, of humidity times saturation
  vapour pressure times uplift over temperature. It is finite and not negative on the ascending orography grid in metres, whatever the units, direction and resolution of the inputs.
  Inputs are unchanged and mismatched or deep inputs are refused.""",
  "calm air, winds along one axis, coarser input grids, axes descending or transposed, units, wind at domain edges, a plugin used again",
  "Tests use one idealised hill.",
  "improver/orographic_enhancement.py improver/utilities/spatial.py",
  [("enhancement", "improver/orographic_enhancement.py:OrographicEnhancement")],
  ["OrographicEnhancement.process"],
  """A naive double-precision version with its own interpolation, gradients and upwind walk; points whose source cell is a rounding tie are not judged.""", "ancils")

P("C57", "Synthetic cubes hold the data and metadata asked for",
  """Cubes set up or generated have the given data, names, units, times and bounds, levels, thresholds or percentiles, sites and grid, in the standard dimension order and types, with a forecast
  period consistent with the times. Added coordinates repeat the data unchanged for each value. Arguments that contradict each other are refused and those given are not modified.""",
  "single values, one row or column, bounds in either order, blend times, pressure levels, spot cubes, masked data, spacings and corners",
  "Tests use fixed examples.",
  "improver/synthetic_data/set_up_test_cubes.py improver/synthetic_data/generate_metadata.py improver/synthetic_data/utilities.py improver/grids.py",
  [("cubes", "improver/synthetic_data/set_up_test_cubes.py:set_up_variable_cube"), ("metadata", "improver/synthetic_data/generate_metadata.py:generate_metadata")],
  ["set_up_variable_cube", "set_up_spot_variable_cube", "set_up_percentile_cube", "set_up_probability_cube", "add_coordinate", "generate_metadata"],
  """Every coordinate is recomputed from the arguments.""", "synth")

P("C58", "The metadata interpreter accepts the standard and reports departures",
  """A cube that conforms to the standard is accepted and described correctly: kind of field, diagnostic, threshold comparison, cell methods, model or blend, spot or grid. Each departure
  (missing coordinates or attributes, wrong types, units, names, bounds, cell methods, inconsistent models or thresholds) is reported, several together,
  and unexpected attributes only give a warning. The cube is unchanged.""",
  "each kind of field with each fault that can be put in it, blends of several models, spot and gridded",
  "Tests try some faults on one cube of each kind.",
  "improver/developer_tools/metadata_interpreter.py",
  [("interpretation", "improver/developer_tools/metadata_interpreter.py:MOMetadataInterpreter.run"), ("text", "improver/developer_tools/metadata_interpreter.py:display_interpretation")],
  ["MOMetadataInterpreter.run", "display_interpretation"],
  """Conforming cubes are generated with their facts; a fault is then put in and must be named in the message.""", "synth")

P("C59", "Calibration inputs are sorted, matched and merged without loss",
  """Whatever their order, every cube given to calibration takes one role: forecast, truth, coefficients, bias, static predictor, land-sea mask or template; missing, duplicate or contradictory
  ones are refused. Forecasts and truths are paired only where times and periods agree, and mixed hours of reference, periods or masks are refused. Reshaping and land-sea merging keep every
  value in its place and change no other input.""",
  "orders of inputs, one or many times, unmatched periods, missing times, sub-hourly periods, masks over everything or nothing, hidden values",
  "Tests use one list of cubes for each function.",
  "improver/calibration/__init__.py improver/calibration/utilities.py",
  [("sorting", "improver/calibration/__init__.py:split_forecasts_and_coeffs"), ("matching", "improver/calibration/utilities.py:filter_non_matching_cubes")],
  ["split_forecasts_and_truth", "filter_non_matching_cubes", "merge_land_and_sea"],
  """Roles are known when the lists are built, pairs from the days and periods drawn; arrays are indexed point by point.""", "calinputs")
