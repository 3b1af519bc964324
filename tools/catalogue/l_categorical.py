P("C42", "Decision trees give each point the leaf its own diagnostics lead to",
  """Each point carries the leaf reached by testing its own probabilities node after node, with missing diagnostics taken to the stated outcome or the most
  probable branch, and day symbols replaced by their night partners where the sun is down. Points masked in what they need are masked, times, periods and
  diagnostics that do not belong together are refused, and the tree and inputs are left alone. check_tree reports every fault of a tree and nothing on a sound one.""",
  "random trees, operators in expressions, branches meeting, missing diagnostics, masks over hidden values, night points, the plugin used twice",
  "Tests use one weather tree with hand-written fields.",
  "improver/categorical/decision_tree.py improver/categorical/utilities.py",
  [("walk", "improver/categorical/decision_tree.py:ApplyDecisionTree"),
   ("tree", "improver/categorical/utilities.py:check_tree")],
  ["ApplyDecisionTree", "check_tree", "update_daynight", "interrogate_decision_tree"],
  """A separate walker evaluates the tree at each point in float64, within guard bands around thresholds. Expressions hold no nested lists.""", "categorical")
P("C43", "The modal category is the most common, grouped, the most serious on ties",
  """Over a period each point carries the most common category, day and night partners counted together, grouped categories counted as one where no category clearly leads,
  and the most severe taken where counts tie. The time bounds span the inputs, record of runs and
  model kept as asked, and inputs are unchanged; mismatched periods are refused.""",
  "single inputs, grids with a dimension of one, ties, groups, periods out of order, spot sites, broken periods",
  "Tests use a few fixed stacks.",
  "improver/categorical/modal_code.py",
  [("mode", "improver/categorical/modal_code.py:ModalCategory")],
  ["ModalCategory"],
  """The count is made per point with plain dictionaries.""", "categorical")
