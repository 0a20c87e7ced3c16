import json
P=[]
A="artemis/"
PDB=A+"interactions_methods/model_agnostic/partial_dependence_based/"
T6="Only six toy tests run here (one informative and one constant feature, default options); "
def p(id,title,st,over,q,why,files,mech,state=None,obs=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if obs: d["anchors"]["observe_at"]=obs
    P.append(d)
p("C01","Partial dependence values are exact average predictions",
 "After any sequence of calculation requests to a partial dependence calculator (single features, feature pairs on the full grid or on observed combinations, all-but-one profiles) on data without missing cells, with columns of any type (numbers, truth values, texts, categories, dates), every requested entry equals the mean prediction over the data with the corresponding feature values fixed, and entries never requested stay missing. Looking values up by feature value, or by a pair of features in either order, returns the entry of exactly those values. A prediction that fails part-way leaves the calculator usable: repeating the request yields the same exact values.",
 ["inputs","histories","fault_sequences"],"every model, predict function, data frame (float, integer, boolean, text columns; any index; repeated values), batch size and sequence of calculate/get requests, with predictions optionally failing at any call",
 T6+"test_pdp_calculator only checks that values are (not) NaN and cannot even run offline; no batch boundary, repeated value or re-request is compared with a value.",
 [A+"_utilities/pd_calculator.py"],[("batched evaluation with range bookkeeping",A+"_utilities/pd_calculator.py:calculate_pd_*"),("value to index lookup",A+"_utilities/pd_calculator.py:get_index")],
 [("pd_single, pd_pairs, pd_minus_single","stored partial dependence values, NaN = not computed",A+"_utilities/pd_calculator.py")],["get_pd_single/get_pd_pairs/get_pd_minus_single results"])
p("C02","Pairwise H-statistic equals its definition",
 "For every requested pair of features the reported one-versus-one value equals Friedman's H-statistic of the two features computed at the rows of the explained sample: the sum of squared differences between the centred joint partial dependence and both centred single partial dependences, divided by the sum of squares of the centred joint partial dependence. In the unnormalised variant it equals the square root of the mean of those squared differences. If the model does not vary over the pair at all, the value is 0.",
 ["inputs","configurations"],"every model and prediction function, data set, feature subset in any order, batch size, normalised or not, sampled or not",
 T6+"no test compares an H value with anything.",[PDB+"_friedman_h_statistic.py",A+"_utilities/pd_calculator.py",A+"_utilities/ops.py"],
 [("H value formula",PDB+"_friedman_h_statistic.py:_calculate_hstat_value"),("centering",A+"_utilities/ops.py:center")],None,["FriedmanHStatisticMethod.ovo"])
p("C03","One-versus-all H-statistic equals its definition",
 "For every requested feature the reported one-versus-all value equals the H-statistic of the feature against all other features together at the rows of the explained sample: predictions minus the partial dependence on the feature minus the partial dependence on all the other features (all centred), squared and summed, divided by the sum of squared centred predictions, or in the unnormalised variant the root mean of the squares, in whatever container (array, list, series, single column) the predictions come. When one-versus-all calculation is switched off, no one-versus-all table is present after the fit, not even one of an earlier fit.",
 ["inputs","configurations","histories"],"every model, data set, feature subset, variant and sequence of fits with one-versus-all on or off",
 T6+"ova values are never compared with a reference.",[PDB+"_friedman_h_statistic.py",A+"_utilities/pd_calculator.py"],
 [("ova calculation",PDB+"_friedman_h_statistic.py:_calculate_ova_interactions_from_pd"),("all-but-one profiles",A+"_utilities/pd_calculator.py:calculate_pd_minus_single")],None,["FriedmanHStatisticMethod.ova"])
p("C04","Greenwell interaction equals its definition",
 "For every requested pair of features the reported value is the mean of two numbers: the sample standard deviation, over the values of one feature, of the importance of the other feature conditional on that value, and the same with the roles exchanged. Conditional importance is the sample standard deviation of the joint partial dependence along a numerical feature and a quarter of its range along a categorical one, over the unique observed values. A feature that is constant in the data contributes a deviation of 0 instead of failing.",
 ["inputs","configurations"],"every model, data set with numerical, boolean, text and constant columns, feature subset in any order, batch size",
 T6+"Greenwell is never run by the tests available offline, and its own tests only look at column names and order.",[PDB+"_greenwell.py",A+"_utilities/pd_calculator.py",A+"_utilities/ops.py"],
 [("conditional importance",PDB+"_greenwell.py:_calc_conditional_imp"),("numerical/categorical split",A+"_utilities/ops.py:split_features_num_cat")],None,["GreenwellMethod.ovo"])
p("C05","Partial dependence importance equals its definition",
 "The partial dependence based importance of every requested feature is the population standard deviation of its partial dependence over the unique observed values if the feature is numerical and a quarter of the range of the partial dependence if it is categorical. The importance reported together with H-statistic and Greenwell interactions is this same table for the same features and sample.",
 ["inputs","configurations"],"every model, data set, feature subset, batch size, standalone or as part of an interaction method",
 T6+"the tests check that one informative feature outranks one constant feature.",[A+"importance_methods/model_agnostic/_pdp.py",PDB+"_pdp.py"],
 [("importance formula",A+"importance_methods/model_agnostic/_pdp.py:_calc_importance")],None,["PartialDependenceBasedImportance.importance()","feature_importance of PD based methods"])
p("C06","Additivity index equals its definition",
 "The additivity index returned for a model equals 1 minus the ratio between the sum of squared residuals of the predictions from the first-order sum (mean prediction plus centred partial dependences of all features) and the total sum of squares of the predictions around their mean (predictions may come as array, list, series or single column), hence it never exceeds 1 and equals 1 for an additive model. The detailed result holds, for every row of the explained sample, the partial dependence of each feature minus the mean prediction and the centred prediction.",
 ["inputs","configurations"],"every model with non-constant predictions, data set, prediction function, batch size, sample size",
 "The test of the meter needs a download; it compares a linear model with a forest on one data set only.",[A+"additivity/_additivity_meter.py",A+"_utilities/pd_calculator.py"],
 [("index formula",A+"additivity/_additivity_meter.py:_calculate_additivity")],None,["AdditivityMeter.fit() result","AdditivityMeter.full_result"])
p("C07","No interaction or importance is reported where the model has none",
 "If the model output contains no joint term of two features, their pairwise H-statistic and Greenwell value are 0 up to rounding; if a feature enters the model additively, its one-versus-all H-statistic is 0. A feature the model ignores has importance 0 under partial dependence and permutation importance and H-statistic and Greenwell value 0 with every feature, and two ignored features have performance based interaction 0. Conversely a model consisting of a product of two centred features with at least three values each, on a full grid, gives this pair a positive value in H-statistic and Greenwell.",
 ["inputs","programs"],"every model built from additive and joint terms over any subset of features, every data set, normalised and unnormalised",
 "Needs models with known interaction structure over arbitrary data; "+T6+"they include no interaction at all.",[PDB+"_friedman_h_statistic.py",PDB+"_greenwell.py",A+"importance_methods/model_agnostic/_pdp.py",A+"interactions_methods/model_agnostic/performance_based/_sejong_oh.py",A+"_utilities/ops.py"],
 [("noise-free centering",A+"_utilities/ops.py:center"),("NaN to 0",PDB+"_friedman_h_statistic.py")],None,["ovo, ova, feature_importance"])
p("C08","Permutation importance is the metric change under shuffling one feature",
 "The permutation importance of each requested feature (all features if none are named) is the average over the requested number of repeats of the change of the metric when the values of this feature alone are uniformly shuffled among rows while all other features keep their original values, relative to the metric on the unmodified data. It is signed so that a positive value means worse performance: increase for regression metrics, decrease for classification metrics.",
 ["inputs","configurations","histories"],"every model, data set, target (array, list or series), metric (built-in or user defined), number of repeats, feature subset and random state",
 "The outcome is random; "+T6+"they only compare two features, one of them constant.",[A+"importance_methods/model_agnostic/_permutational_importance.py"],
 [("shuffle and restore",A+"importance_methods/model_agnostic/_permutational_importance.py:_corrupted_scores"),("sign",A+"importance_methods/model_agnostic/_permutational_importance.py:_neg_if_class")],None,["PermutationImportance.importance()","SejongOhMethod.feature_importance"])
p("C09","Sejong Oh interaction is the joint minus separate shuffling effect",
 "For every requested pair the performance based interaction is the average over repeats of the absolute value of: metric change when both features are shuffled jointly (with one common permutation) minus the metric changes when each of them is shuffled alone, every change being relative to the metric on the unmodified sample and each shuffle being an independent uniform permutation. All other features keep their original values in every evaluation. Ten repeats are made unless n_repeat is given.",
 ["inputs","configurations"],"every model, data set, target, metric, number of repeats, feature subset and random state",
 "The outcome is random and no test that can run here touches the method; its own tests look at columns and order only.",[A+"interactions_methods/model_agnostic/performance_based/_sejong_oh.py"],
 [("permute_score",A+"interactions_methods/model_agnostic/performance_based/_sejong_oh.py:_permute_score"),("inter",A+"interactions_methods/model_agnostic/performance_based/_sejong_oh.py:_inter")],None,["SejongOhMethod.ovo"])
p("C10","Performance metrics follow their definitions",
 "MSE is the mean squared difference, RMSE its square root, and accuracy the fraction of equal labels between targets and predictions, for any array, list or series of targets, and also when targets or predictions come as a single column; each metric reports itself applicable to exactly its own problem type (RMSE and MSE to regression, accuracy to classification).",
 ["inputs"],"all pairs of target and prediction vectors of equal length, as arrays, lists or series with any index",
 "The metrics have no tests.",[A+"_utilities/performance_metrics.py"],[("metrics",A+"_utilities/performance_metrics.py")],None,["Metric.calculate, Metric.applicable_to"])
p("C11","Sampling keeps rows intact and targets paired with their rows",
 "When a sample size n is given, every method works on exactly n distinct rows of the given data, drawn uniformly at random, each row unchanged in all its columns; without it, on all rows. Target values stay attached to the row they belong to whatever the index of the data and the container of the targets. The results are those of explaining the sampled rows directly.",
 ["inputs","configurations"],"every data set and index (default, shuffled, offset, text, repeated labels), target container (array, list, series), sample size from 1 to the number of rows, random state and method that takes n",
 "Existing tests only check the length of the sample, with a default index.",[A+"_utilities/ops.py",PDB+"_pdp.py",A+"interactions_methods/model_agnostic/performance_based/_sejong_oh.py",A+"additivity/_additivity_meter.py"],
 [("sample_if_not_none / sample_both_if_not_none",A+"_utilities/ops.py")],None,["X_sampled, y_sampled, ovo"])
p("C12","A fixed random_state makes results reproducible",
 "Two objects of the same method created with the same random_state and given the same sequence of calls produce identical results (samples, interactions, importances, additivity index), irrespective of the state of global random generators, of other method objects used in between, and of what was done before.",
 ["histories","inputs"],"every method with random_state, every seed, sampled or not, every interleaving of calls on several objects",
 "No test sets random_state.",[A+"interactions_methods/_method.py",A+"importance_methods/_method.py",A+"interactions_methods/model_agnostic/performance_based/_sejong_oh.py",A+"additivity/_additivity_meter.py",A+"_utilities/ops.py"],
 [("per-object generator",A+"interactions_methods/_method.py:__init__")],[("_random_generator","per-object source of randomness",A+"interactions_methods/_method.py")],["ovo, ova, feature_importance, X_sampled, additivity_index"])
p("C13","Result tables are complete, free of duplicates and ranked strongest first",
 "One-versus-one tables of the model-agnostic methods hold each unordered pair of the requested features exactly once, one-versus-all and importance tables each requested feature exactly once, conditional minimal depth holds every ordered pair of distinct model features exactly once, split score each parent-child pair at most once; nothing else, and no missing value in model-agnostic tables. Every table is ordered from strongest to weakest: descending values, or ascending where smaller means stronger (depths), conditional minimal depth first by descending number of occurrences; split score and minimal depth importance likewise follow the direction of their metric. Row labels of the ranked model-agnostic and split score tables count 0, 1, 2, ...",
 ["inputs","configurations"],"every method, metric, model, data set and feature subset in any order",
 "Order is tested on two fixed data sets that need a download.",[PDB+"_friedman_h_statistic.py",PDB+"_greenwell.py",A+"interactions_methods/model_agnostic/performance_based/_sejong_oh.py",A+"interactions_methods/model_specific/gb_trees/_split_score.py",A+"interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py",A+"importance_methods/model_specific/_split_score.py",A+"importance_methods/model_specific/_minimal_depth.py"],
 [("combinations of requested features",PDB+"_pdp.py:fit"),("sort_values with the method's direction",PDB+"_greenwell.py")],None,["ovo, ova, feature_importance"])
p("C14","Reusing a partial dependence calculator changes nothing but the work",
 "Passing an existing partial dependence calculator for the same model and data to any partial dependence based method, importance or the additivity meter, in any order and for any feature subsets, gives the same results as starting from scratch, and neither such an explanation nor a request to the calculator itself evaluates the model again on modified data for values the calculator already holds. A calculator for another model object or for different data is rejected with ValueError.",
 ["histories","inputs"],"every sequence of explanations sharing a calculator, with arbitrary feature subsets and options; every other model or modified data set",
 "No test reuses a calculator across methods.",[PDB+"_pdp.py",A+"importance_methods/model_agnostic/_pdp.py",A+"additivity/_additivity_meter.py",A+"_utilities/pd_calculator.py"],
 [("NaN-guarded recomputation",A+"_utilities/pd_calculator.py"),("model and data comparison",PDB+"_pdp.py:fit")],[("pd_calculator","cache of partial dependence values",PDB+"_pdp.py")],["ovo, ova, feature_importance, additivity_index, number of predict calls"])
p("C15","Partial dependence based results do not depend on presentation",
 "Values of H-statistic, Greenwell, partial dependence importance and additivity index do not change (up to rounding) with batch size, progress display, row order, column order, order of requested features, index labels, feature renaming, or when every row is repeated the same number of times. Replacing predictions f by a*f+b with a non-zero leaves normalised H-statistic and additivity index unchanged and multiplies unnormalised H-statistic, Greenwell values and importances by |a|.",
 ["inputs","configurations"],"every model and data set, every permutation, renaming, batch size and affine transformation",
 "Relates pairs of runs; tests make single runs.",[PDB+"_pdp.py",PDB+"_friedman_h_statistic.py",PDB+"_greenwell.py",A+"_utilities/pd_calculator.py",A+"additivity/_additivity_meter.py"],
 [("batching",A+"_utilities/pd_calculator.py"),("pair key normalisation",A+"_utilities/pd_calculator.py:_get_pair_key")],None,["ovo, ova, feature_importance, additivity_index"])
p("C16","Explaining is read-only and queries the model only with well-formed rows",
 "Explaining a model never changes the caller's data frame, targets, feature list, prepared tree structure or model. Every data set passed to the model has the same columns in the same order as the explained data, at least one row, and only cell values that occur in that column of the explained sample. In partial dependence based explanations and permutation importance these data sets also keep the types of the columns (categories stay categories). Partial dependence based explanations use a supplied prediction function, else the probability of the second class if the model offers probabilities, else its plain prediction; performance based ones use the plain prediction.",
 ["inputs","histories"],"every method, data set, model kind (regressor, classifier, opaque object with prediction function) and option",
 "Tests never look at inputs after a fit or at what the model is asked.",[A+"_utilities/pd_calculator.py",A+"_utilities/ops.py",A+"importance_methods/model_agnostic/_permutational_importance.py",A+"interactions_methods/model_agnostic/performance_based/_sejong_oh.py",A+"interactions_methods/model_specific/gb_trees/_split_score.py"],
 [("copies before modification",A+"_utilities/pd_calculator.py"),("get_predict_function",A+"_utilities/ops.py")],None,["arguments after the call; frames received by the model"])
p("C17","Split score interactions aggregate exactly the parent-child splits",
 "For gradient boosted trees from XGBoost or LightGBM the interaction table has one row per ordered pair (parent feature, child feature) of consecutive splits, whose value is the selected metric (mean or sum of child gain or cover, or mean child depth with the root at depth 0) over exactly the child splits of that pair in all trees. By default only child splits on a different feature and with strictly greater gain than their parent count; with that restriction switched off all child splits count. Models without consecutive splits give an empty table. The full table (full_ovo) holds all these aggregates and the number of counted splits for the same pairs.",
 ["inputs","programs","configurations"],"every tree ensemble of either package (any shape, depth, number of trees and classes, growth policy), metric, and restriction on or off",
 "Tests check column names and order only, on fixed data that need a download.",[A+"interactions_methods/model_specific/gb_trees/_split_score.py",A+"_utilities/_handler.py"],
 [("per-tree parent statistics",A+"interactions_methods/model_specific/gb_trees/_split_score.py:_prepare_stats"),("aggregation",A+"interactions_methods/model_specific/gb_trees/_split_score.py:_get_summary")],None,["SplitScoreMethod.ovo, full_ovo"])
p("C18","Split score importance aggregates exactly the splits of each feature",
 "For gradient boosted trees the importance table has one row per feature used in any split (restricted to the requested features if given), whose value is the selected metric over all its splits: mean or sum of gain or cover, mean depth, gain-weighted mean depth, number of trees with the feature at the root, or that number times the share of the feature in the total root gain (zero or missing for features never at a root and where the gains to weight with are all zero).",
 ["inputs","programs","configurations"],"every tree ensemble of either package with at least one split, every metric, with and without precomputed trees",
 "Tests check column names only.",[A+"importance_methods/model_specific/_split_score.py",A+"_utilities/_handler.py"],
 [("metric aggregation",A+"importance_methods/model_specific/_split_score.py"),("depth calculation",A+"importance_methods/model_specific/_split_score.py:_calculate_depth_for_one_tree")],None,["SplitScoreMethod.feature_importance","SplitScoreImportance.importance()"])
p("C19","Unsupported requests are rejected with the dedicated exception",
 "Plotting (including profile plots, zenplots and, when the one-versus-all part was not calculated, its bar chart), comparing or looking up values before fit raises MethodNotFittedException; a visualization not offered by the method raises VisualizationNotSupportedException; models from packages other than XGBoost and LightGBM given to split score raise ModelNotSupportedException; cover metrics for interactions or importance requested from the split score method for LightGBM raise MetricNotSupportedException; minimal depth importance without the interaction data raises FeatureImportanceWithoutInteractionException. Conversely every documented visualization, model form and metric is accepted, and a rejected request leaves earlier results and their ranking in place.",
 ["inputs","configurations","histories"],"every method, visualization name, metric combination and model form, before and after fits",
 "Tests cover a few of the combinations, none of which can run offline.",[A+"_utilities/exceptions.py",A+"interactions_methods/_method.py",A+"visualizer/_visualizer.py",A+"visualizer/_configuration.py",A+"_utilities/_handler.py",A+"interactions_methods/model_specific/gb_trees/_split_score.py",A+"importance_methods/model_specific/_minimal_depth.py"],
 [("accepted_visualizations",A+"visualizer/_configuration.py"),("package check",A+"_utilities/_handler.py"),("metric check",A+"interactions_methods/model_specific/gb_trees/_split_score.py:_check_metrics_with_available_info")],None,["exceptions"])
p("C20","Conditional minimal depth follows the forest structure",
 "For every ordered pair of distinct features (root, other) of a scikit-learn forest, each tree using both contributes the minimum over the shallowest nodes splitting on the root feature of: the number of levels strictly between that node and the nearest split on the other feature below it, or, if there is none below it, the depth of the rightmost leaf of its subtree relative to the node. The reported value is the mean contribution over trees using both features (missing if there are none) and the number of occurrences counts the trees in which the other feature is found below such a node.",
 ["inputs","programs"],"every RandomForest/ExtraTrees classifier or regressor: any depth, growth order (including max_leaf_nodes), number of trees and features, features never used",
 "Tests check column names and number of rows only.",[A+"interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py"],
 [("BFS depths and split nodes",A+"interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py:_bfs"),("subtree as id interval",A+"interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py:_calculate_maximal_id_in_subtree")],None,["ConditionalMinimalDepthMethod.ovo"])
p("C21","Minimal depth importance is the mean depth of the first split",
 "The minimal depth importance of a feature is the depth of the shallowest split on it (root = 0), averaged over the trees that use the feature; features used in no tree are not listed, and every listed name is the model's own name of that feature.",
 ["inputs","programs"],"every scikit-learn forest",
 "Tests check the set of names on two data sets.",[A+"importance_methods/model_specific/_minimal_depth.py",A+"interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py"],
 [("first BFS node per feature",A+"importance_methods/model_specific/_minimal_depth.py:importance")],None,["ConditionalMinimalDepthMethod.feature_importance"])
p("C22","A refitted object reports only its last fit",
 "After any sequence of fits of one object with different models, data, features, metrics and options, all results of the object (tables, sample, feature and pair lists, additivity details, comparison results and correlation box) are those a new object would report for the last fit alone.",
 ["histories"],"every method, importance class, additivity meter and comparator; every sequence of fits, plots and comparisons",
 "Tests create a new object for nearly every call.",[PDB+"_pdp.py",PDB+"_friedman_h_statistic.py",A+"interactions_methods/model_agnostic/performance_based/_sejong_oh.py",A+"interactions_methods/model_specific/gb_trees/_split_score.py",A+"interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py",A+"comparison/_method_comparator.py",A+"additivity/_additivity_meter.py"],
 [("all state assigned in fit",PDB+"_pdp.py:fit")],None,["ovo, ova, feature_importance, X_sampled, features_included, pairs, full_result, correlations"])
p("C23","Method comparison correlates strength ranks of common pairs",
 "For two fitted methods the comparator's Pearson, Kendall and Spearman values are the respective correlations between the two strength rankings (strongest first, ties averaged, direction of each method respected) of the unordered feature pairs both methods score; they are symmetric, 1 for methods ranking all pairs identically, -1 for exactly reversed rankings, and unaffected by feature names. The comparison plot has exactly one point per pair scored by both methods (for split score as the first method one per ordered pair) at (value in first method, interaction value in second method), labels mark the points of the pairs they name, each axis is labelled with its method and inverted where smaller means stronger for it, the figure has the requested size, and the correlation box shows the correlations of the compared methods.",
 ["inputs","histories"],"every two fitted methods of any kinds, also with different feature sets, ties and directed pairs; every sequence of comparisons on one comparator",
 "Tests only check that three correlations and a figure exist.",[A+"comparison/_method_comparator.py",A+"interactions_methods/_method.py"],
 [("pair ranks",A+"comparison/_method_comparator.py:_rank_interaction_values_encoded"),("plot",A+"comparison/_method_comparator.py:comparison_plot")],None,["correlations(), correlation(), comparison_plot(), summary()"])
p("C24","Interaction lookup is symmetric and agrees with the table",
 "Asking a fitted method for the interaction value of two features gives the value its table holds for that pair, the same for both orders of the arguments: the single entry for model-agnostic methods, the stronger of the two directions for split score, and the mean of the available directions for conditional minimal depth, for all feature names.",
 ["inputs"],"every fitted method, every pair it scores, arbitrary feature names (including names that are concatenations or prefixes of others)",
 "Not tested directly.",[A+"interactions_methods/_method.py",A+"interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py"],
 [("interaction_value",A+"interactions_methods/_method.py"),("_compare_ovo",A+"interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py")],None,["interaction_value()"])
p("C25","Heatmaps, bar charts and graph labels show the reported numbers",
 "In the heatmap the cell of two different features shows their interaction value and the diagonal cell the feature's importance, rows and columns carrying the right and identically ordered feature names (symmetric for model-agnostic methods, row = root for conditional minimal depth, row = parent for split score with the opposite direction shown where only that one exists). Bar charts show exactly the top_k strongest pairs (or features for one-versus-all) in ranking order with bar lengths equal to the values, and graph edge labels (for methods where greater means stronger) are the rounded values of the n_highest_with_labels strongest pairs with positive value that reach the threshold. Under the default colour maps the strongest pair and the most important feature are the darkest cells, a requested title is shown, and the summary shows the same content as the separate plots. The lollipop plot of a boosted model shows the root gains of the first max_trees share of all trees as a line and the gains of their splits down to max_depth as points, labelling roots that reach the label threshold with their feature and interacting splits with their pair.",
 ["inputs","configurations"],"every fitted method with at least one pair, every plot option top_k, n_highest_with_labels, threshold, annotation format",
 "Plot tests only check that nothing crashes, and none runs offline.",[A+"visualizer/_visualizer.py",A+"visualizer/_configuration.py"],
 [("pivot and ordering",A+"visualizer/_visualizer.py:plot_heatmap"),("bars",A+"visualizer/_visualizer.py:plot_barchart_ovo"),("edge labels",A+"visualizer/_visualizer.py:_edge_labels")],None,["matplotlib artists"])
p("C26","Every supported plot renders and leaves the results untouched",
 "For every fitted method whose table holds at least one pair of different features, each visualization the method supports is drawn without an error whatever the features used by the model and the documented options, and afterwards all result tables of the method, the caller's option dictionaries and the global set of supported visualizations are unchanged, so that plotting in any order and number of times does not influence results or later plots.",
 ["inputs","histories","configurations"],"every fitted method, every sequence of supported plots with documented options",
 "Plot tests run on two models in which every feature is used, and need a download.",[A+"visualizer/_visualizer.py",A+"visualizer/_configuration.py",A+"interactions_methods/_method.py"],
 [("copies before modification",A+"visualizer/_visualizer.py")],None,["exceptions, ovo/ova/feature_importance/full_result before and after"])
p("C27","Profile plots show the partial dependence functions",
 "The profile plot of one feature is the line of its partial dependence over its sorted unique observed values; the profile plot of two features (in either order) is the colour mesh or contour plot of their joint partial dependence (at least at the observed combinations of values) with each axis labelled by the feature whose values it carries. The stand-alone partial dependence visualizer draws scikit-learn's partial dependence of the requested feature for the given model, data and grid resolution, under the requested title.",
 ["inputs","configurations"],"every fitted partial dependence based method and pair of features; every scikit-learn model, data set, feature and grid resolution",
 "Not tested.",[PDB+"_pdp.py",A+"visualizer/_pdp_visualizer.py"],
 [("plot_profile",PDB+"_pdp.py"),("wrapper",A+"visualizer/_pdp_visualizer.py")],None,["matplotlib artists"])
p("C28","Zenplots show the strongest pairs, each with its own surface",
 "A zenplot of length k has min(k, number of pairs) panels, each showing the joint partial dependence surface of a different pair among the k+1 strongest pairs with both axes carrying the values of the pair's features, starting with the strongest pair and continuing with the strongest not yet shown pair that shares the last feature whenever there is one. Panels follow each other to the right and below so that a shared feature lies on the common axis, labels name the feature on their axis, each feature of a panel is named on it or on the next panel that shares it, and all panels share one colour scale spanning the plotted pairs' values.",
 ["inputs","configurations"],"every fitted partial dependence based method, zenpath length from 1 up, both kinds of plot",
 "Not tested.",[PDB+"_pdp.py",A+"_utilities/zenplot.py"],
 [("zenpath",A+"_utilities/zenplot.py:find_next_pair_index"),("panels",PDB+"_pdp.py:plot_zenplot")],None,["matplotlib artists"])
p("C29","Graphs draw strength as edge width and importance as node size",
 "In the interaction graph every reported pair of two different features is an edge. A pair that does not reach the threshold for relevant interactions has zero width; among the pairs that reach it, the width never decreases with strength (strength as the method orders it: a smaller value is stronger for conditional minimal depth), equal values have equal widths, and the strongest one has the full maximal edge width. For every method whose importance grows with the value, the size of a node is proportional to the importance of its feature, the most important feature having the full node size.",
 ["inputs","configurations"],"every fitted method, thresholds and maximal edge widths, graph alone or inside the summary",
 "Not tested.",[A+"visualizer/_visualizer.py"],
 [("edge widths",A+"visualizer/_visualizer.py:plot_interaction_graph"),("node sizes",A+"visualizer/_visualizer.py:plot_interaction_graph")],None,["matplotlib artists"])
p("C30","Documented plot options take effect, and defaults are as documented",
 "Every plot of a method has the requested figure size (8 by 6 by default; the summary keeps the requested proportions) and the requested title (by default a generated one). Heatmap cells take their colours from the requested interaction and importance colour maps (default Purples and Greens, reversed where smaller means stronger) and are divided by lines of the requested width and colour, their annotations are written in the requested number format (.3f by default); bars have the requested colour; graph edges, nodes and texts have the requested colours, font weight and (names) font size; in the lollipop plot the points of each depth have the colour and marker listed for that depth, lists being repeated, and the axis of trees has the requested scale (linear by default); profile and zenplot surfaces use the requested colour map and figure size. In the conditional bar chart of a forest the colour of a bar is determined by the number of occurrences of its pair (more occurrences, darker under the default map; equal numbers, equal colours) and a line in the requested colour joins the pair's value with the importance of its second feature. Inside the summary the option dictionary of a panel acts on that panel only.",
 ["inputs","configurations"],"every fitted method, every supported visualization and every subset of the documented options",
 "Not tested.",[A+"visualizer/_visualizer.py",A+"visualizer/_configuration.py",PDB+"_pdp.py"],
 [("option handling",A+"visualizer/_visualizer.py:plot"),("defaults",A+"visualizer/_configuration.py")],None,["matplotlib artists"])
p("C31","Partial dependence requests are collected into batches",
 "With batch size B, a calculation of single, pairwise or all-but-one partial dependence values sends the model joint queries in which every query but the last of the calculation has more than B rows, and no query has more than B rows plus the rows that one further block of requests adds (all values of one feature, one pair of values, or all rows for one left-out feature). This holds for the calculator and for every explanation that uses it, the default batch size being 2000.",
 ["inputs","configurations"],"every data set, feature list, batch size and partial dependence based explanation",
 "Tests never look at the queries.",[A+"_utilities/pd_calculator.py",PDB+"_pdp.py",A+"importance_methods/model_agnostic/_pdp.py",A+"additivity/_additivity_meter.py"],
 [("batches",A+"_utilities/pd_calculator.py:calculate_pd_pairs")],None,["row counts of model queries"])
p("C32","Progress is shown only on request and changes nothing",
 "Fitting any method, importance class or the additivity meter writes nothing to standard output or standard error unless show_progress=True is given, which is off by default and does not persist to later calls; with show_progress=True a progress bar is shown on standard error. The results are the same with and without it.",
 ["inputs","histories"],"every method, importance class and the additivity meter, every sequence of fits with and without progress",
 "Tests never look at the output.",[A+"_utilities/pd_calculator.py",A+"interactions_methods/model_agnostic/performance_based/_sejong_oh.py",A+"importance_methods/model_agnostic/_permutational_importance.py",A+"interactions_methods/model_specific/gb_trees/_split_score.py",A+"interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py"],
 [("progress bars",A+"_utilities/pd_calculator.py"),("tqdm.pandas",A+"interactions_methods/model_specific/gb_trees/_split_score.py:_calculate_full_result")],None,["sys.stdout, sys.stderr, result tables"])
p("C33","The unified structure of boosted trees is the structure of the model",
 "The tree handler turns every supported XGBoost or LightGBM model, given as booster or scikit-learn wrapper, into a table with exactly one row per node of every tree: the tree and an identifier unique within it, whether the node is a leaf, and for splits the feature, the gain and the identifiers of the left and right child (and the cover for XGBoost); for LightGBM also the depth counted from 0 at the root. Leaves have no children. A handler given another model holds the structure of that model only, and tables obtained before stay as they were.",
 ["inputs","histories"],"every boosted model of both packages, of any size, shape, objective and growth policy, and every sequence of models given to one handler",
 "No test looks at the table; it must be right for every tree shape either package can produce.",[A+"_utilities/_handler.py"],
 [("unification",A+"_utilities/_handler.py:_get_unified_trees_df")],None,["GBTreesHandler.trees_df, GBTreesHandler.package"])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+"\n")
