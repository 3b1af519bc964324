P("C16", "Blending weights follow the configured law and sum to one",
  """Linear, exponential and triangular weights take the values of their formula at each point of the blend coordinate, in the stated
  order, whatever the units of the parameters.  Weights from a dictionary are interpolated linearly per model along the weighting
  coordinate, held constant beyond the configured end points, and normalised over the models.  Invalid parameters, negative
  weights and weights without a positive sum are refused, and inputs are unchanged.""".replace("  Invalid", "; invalid"),
  "numbers of points, blend coordinates, parameters, units, dictionaries in any order, merged or listed inputs",
  "Tests state the weights for a few two- or three-point coordinates.",
  "improver/blending/weights.py",
  [("default weights", "improver/blending/weights.py:ChooseDefaultWeightsLinear"),
   ("dictionary weights", "improver/blending/weights.py:ChooseWeightsLinear"),
   ("normalisation", "improver/blending/weights.py:WeightsUtilities.normalise_weights")],
  ["ChooseDefaultWeightsLinear", "ChooseDefaultWeightsNonLinear", "ChooseDefaultWeightsTriangular", "ChooseWeightsLinear"],
  """The laws evaluated independently in float64 from the configuration; sums, points, inputs and second use are monitored.""", "blending",
  over=("inputs", "configurations"))
P("C17", "A blend is the weighted mean, or the weighted mixture, of its inputs",
  """Blending over a dimension gives at each point the mean of the valid values under the weights of that point, directions being
  averaged as vectors; percentiles become those of the weighted mixture of the input distributions, so they stay ordered and within
  the inputs.  The order of the inputs, of the weights and of dimensions does not matter, the remaining coordinates stay as
  they were, and a triangular blend keeps the metadata of its central point.""",
  "blend coordinates ascending and descending, weights of one to three dimensions, masks, directions, percentiles, spot and gridded cubes",
  "Tests blend two or three small slices in one dimension order.",
  "improver/blending/weighted_blend.py improver/blending/blend_across_adjacent_points.py improver/utilities/cube_manipulation.py",
  [("weighted mean", "improver/blending/weighted_blend.py:WeightedBlendAcrossWholeDimension.weighted_mean"),
   ("mixture of percentiles", "improver/blending/weighted_blend.py:PercentileBlendingAggregator"),
   ("central point", "improver/blending/blend_across_adjacent_points.py:TriangularWeightedBlendAcrossAdjacentPoints")],
  ["WeightedBlendAcrossWholeDimension", "TriangularWeightedBlendAcrossAdjacentPoints"],
  """Weighted sums and mixture quantiles recomputed per labelled point; masks, coordinates, inputs and second use are monitored.""",
  "blending")
P("C18", "Spatial blending weights follow the masks of the inputs",
  """A masked input gets no weight at its masked points, its weight grows linearly with the distance from the mask up to the fuzzy
  length, and inputs that are not so reduced take up the difference in proportion, so weights sum to one wherever such an input
  exists.  A mask that varies along any other dimension is refused and an input without a mask is announced by a warning.""",
  "masks, overlaps, numbers of inputs, fuzzy lengths, dimension orders, extra dimensions",
  "Tests use a few hand-made masks on one grid.",
  "improver/blending/spatial_weights.py improver/utilities/rescale.py",
  [("fuzzy weights", "improver/blending/spatial_weights.py:SpatiallyVaryingWeightsFromMask")],
  ["SpatiallyVaryingWeightsFromMask"],
  """Brute-force nearest-masked-point distances and the stated redistribution, per point.""", "blending")
P("C19", "Cycles and models blend into one labelled forecast",
  """Merging, weighting and blending cycles or models gives the weighted mean of the contributing inputs in whatever order they are
  given, valid at their common time, labelled with the stated cycle time as blend time and reference time.  Inputs of zero weight
  leave no trace, the models and runs recorded in the attributes are those that contributed, with their share, and no
  intermediate coordinate is left.  Unmergeable inputs are refused.""".replace("  Unmergeable", "; unmergeable"),
  "numbers and order of cycles and models, weights, earlier blends, masks, probability cubes, cycle times",
  "Tests blend two or three fixed models and cycles.",
  "improver/blending/calculate_weights_and_blend.py improver/blending/utilities.py improver/blending/weighted_blend.py improver/utilities/cube_manipulation.py improver/metadata/forecast_times.py",
  [("workflow", "improver/blending/calculate_weights_and_blend.py:WeightAndBlend"),
   ("record of runs", "improver/blending/utilities.py:update_record_run_weights"),
   ("times", "improver/blending/utilities.py:_set_blended_time_coords")],
  ["WeightAndBlend"],
  """Expected blend, times, model list and per-run shares derived from the generated cycles; inputs and second use are monitored.""",
  "blending", over=("inputs", "configurations"))
