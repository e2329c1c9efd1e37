#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the long lines stay reviewable)."""
import json, os
P = "pyslope/pyslope.py"
U = "pyslope/utilities.py"
V = "pyslope/data_validation.py"
W = "slope/views.py"
out = []

def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    out.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))

prop("P01", "Model geometry follows from the slope and extent options",
 "After every accepted change, crest and toe differ by exactly the slope height vertically and by the slope length horizontally (the given length, or height/tan(angle) when no length is given, and never less than 1 mm), with the face centred in the model. The model is as wide as the largest of 5 x length, 4 x height and its minimum width, and as high as the largest of 3 x height, 2.5 x length and its minimum height. The minimum width and height are those the user configured, raised whenever a load or the deepest stratum needs more (on adding it, and when the slope or the minimum extents change), and never lower than that need. Ground-surface queries agree with that profile in both directions and return nothing for a point outside the model.",
 ["inputs", "histories"], "every accepted height, angle or length and extent option, in every order of calls",
 "Tests build a handful of slopes of height 1 and never compare coordinates; the only geometric assertions are two doctests on the extents.",
 [P], [("boundary computation", f"{P}:Slope.set_external_boundary"), ("extent options", f"{P}:Slope.update_boundary_options"), ("surface queries", f"{P}:Slope.get_external_y_intersection, get_external_x_intersection")],
 [("crest, toe, extents", "derived geometry", f"{P}:Slope.set_external_boundary")],
 ["get_top_coordinates", "get_bottom_coordinates", "get_external_y_intersection", "get_external_x_intersection", "boundary trace of plot_boundary"])

prop("P02", "Strata and water stay at their stated depth below the crest",
 "Whatever is changed before or afterwards (slope shape, model extents, other strata, loads), the bottom of every assigned stratum lies at its depth_to_bottom below the crest, and the water table lies at its specified depth below the crest, or at the model base if that is deeper than the model.",
 ["inputs", "histories"], "every sequence of model-editing calls",
 "Levels are absolute elevations, so a change of model height silently moves them; tests set materials and water once on a model that never changes height afterwards.",
 [P], [("stratum level", f"{P}:Slope.set_materials (RL)"), ("water level", f"{P}:Slope.set_water_table"), ("boundary rebuild", f"{P}:Slope.set_external_boundary")],
 [("RL", "elevation of stratum bottom", f"{P}:Material.RL"), ("_water_RL", "elevation of water table", f"{P}:Slope")],
 ["stratum polygons and water line of plot_boundary", "FOS of a plane"])

prop("P03", "Every assigned load acts at its stated offset and wholly on the model",
 "After every sequence of edits each line load acts exactly its offset behind the crest, and each uniform load acts over exactly the strip from its offset back over its length (or back to the model edge if continuous). The model is always wide enough that no load of finite length is truncated, moved or off the model.",
 ["inputs", "histories"], "all loads (offset, length) and all later changes of boundary, extents and other loads",
 "Tests use offsets below 4 m on the default 10 m model and never change the boundary after adding a load.",
 [P], [("load coordinates", f"{P}:Slope._update_udl_coordinates, _update_ll_coordinates"), ("extension of the model", f"{P}:Slope.set_udls, set_lls")],
 [("left, right, coord", "position of loads", f"{P}:Udl, LineLoad")],
 ["load shapes of plot_boundary", "FOS of a plane"])

prop("P04", "No result outlives the model it was computed for",
 "After any accepted change to slope, extents, strata, loads, water, limits, options or user planes, no factor of safety, circle or end point computed before the change is reported by any getter or plot: result getters fail until the slope is analysed again. After the analysis every reported value belongs to the current model. (The log of a dynamic analysis, get_dynamic_results, is a record of that run and is kept until the next one.)",
 ["histories"], "every interleaving of edits, analyses and result queries",
 "Each setter must remember to invalidate results; tests always re-analyse before reading and never read after an edit.",
 [P], [("invalidation", f"{P}:Slope._reset_results called by each setter"), ("result getters", f"{P}:Slope.get_min_FOS, get_min_FOS_circle, get_min_FOS_end_points")],
 [("_search", "analysis results", f"{P}:Slope")], ["get_min_FOS", "get_min_FOS_circle", "get_min_FOS_end_points", "plot_critical"])

prop("P05", "Results depend on the current model, not on how it was reached",
 "Two sessions that end with the same slope, minimum extents (which grow, and stay, when a load or stratum needs a larger model), strata, loads, water table, limits, options and user planes give identical analysis results, whatever was added, removed, re-ordered, changed back or analysed on the way. In particular analysing twice gives the same results, and removing what was added restores the earlier results unless it had enlarged the model.",
 ["histories", "schedules"], "all pairs of call sequences that reach the same set of inputs",
 "A statement about pairs of histories; tests compare three fixed add/remove sequences on one plane set.",
 [P], [("derived state is recomputed", f"{P}:Slope.set_external_boundary, set_materials, set_udls, set_lls, update_water_analysis_options"), ("analysis", f"{P}:Slope.analyse_slope")],
 [], ["get_min_FOS", "FOS of each plane"])

prop("P06", "Adding and removing loads, strata and water is exact",
 "The loads and strata assigned are always exactly those added and not since removed: removal by value drops every load equal to it in magnitude, offset and (for uniform loads) length, removal by depth drops the stratum with that depth, remove_all empties that collection only, removing what is not there changes nothing, and loads of zero magnitude are never added. Every other load, stratum and option is untouched and the remaining model can still be plotted and analysed.",
 ["histories", "inputs"], "all sequences of additions and removals, including duplicates and partial removals",
 "Tests remove a single object or everything; never one of several, duplicates, or something not present.",
 [P], [("removal", f"{P}:Slope.remove_udls, remove_lls, remove_material, remove_water_table"), ("addition", f"{P}:Slope.set_udls, set_lls, set_materials")],
 [("_udls, _lls, _materials", "assigned objects", f"{P}:Slope")], ["plot_boundary", "analyse_slope"])

prop("P07", "A rejected call changes nothing",
 "When a call is refused because of its input (out of range, wrong type, duplicate stratum depth, not a Material, limits out of order), it raises and leaves slope, extents, strata, loads, water, limits, options, user planes and results exactly as they were before the call.",
 ["inputs", "histories"], "every refused input in every reachable model state",
 "No test passes an invalid input at all.",
 [P, V], [("validation before mutation", f"{P}: all setters of Slope"), ("validators", f"{V}:assert_*")],
 [], ["state before and after each refused call", "get_min_FOS"])

prop("P08", "Strata are ordered by depth, unique in depth, and bottom-most is unlimited",
 "Strata added in any order and any number of calls form one column ordered by depth with no two of equal depth (a second stratum of an existing depth raises ValueError); the deepest one continues below its bottom without limit. A stratum with a valid user colour keeps it, all others take the palette colour of their position at the last assignment.",
 ["inputs", "histories"], "all sets of strata in all orders and groupings of calls",
 "Tests always pass strata already sorted in one call.",
 [P], [("sort and uniqueness", f"{P}:Slope.set_materials"), ("lookup", f"{P}:Slope._calculate_strip_weights, _get_material_at_depth")],
 [("_materials", "ordered strata", f"{P}:Slope")], ["plot_boundary", "FOS of planes"])

prop("P09", "Inputs outside the documented ranges are refused, the rest normalised",
 "Creating a slope, stratum or load, or setting water or extents, raises ValueError for non-numbers (NaN included) and for values outside the documented range: height > 0, 0 < angle <= 90, length >= 0, one of angle and length given, unit weight 1 to 50, friction angle >= 0, water depth >= 0, minimum extents numbers that are not negative (0 or None: not given). Accepted negative cohesion, depth, load magnitude, offset and length are taken as their absolute value; a load length of 0 or None means continuous; an unrecognised load colour becomes the default.",
 ["inputs"], "all argument values of the constructors and setters",
 "Tests use only valid inputs.",
 [P, V], [("validators", f"{V}:assert_range, assert_number, assert_positive_number, assert_strictly_positive_number"), ("normalisation", f"{P}:Material, Udl, LineLoad __post_init__")],
 [], ["exceptions", "attributes of Material, Udl, LineLoad", "get_top_coordinates"])

prop("P10", "Analysis options are clamped, partial updates keep the rest",
 "Each update of the analysis options changes exactly the options given and leaves the others as they were; slices are clamped to 10..500, iterations to 500..100000 and the minimum failure distance to 90 % of the model width. The water factor is cos^2 of the current slope angle in automatic mode, also after the slope changes, and otherwise the given factor clamped to 0..1.",
 ["inputs", "histories"], "all option values, subsets of options and later slope changes",
 "Tests never read options back and never change the slope after setting the water option.",
 [P], [("options", f"{P}:Slope.update_analysis_options"), ("water factor", f"{P}:Slope.update_water_analysis_options")],
 [("_slices, _iterations, _min_failure_distance, _tolerance, _max_iterations, _water_analysis_H", "options", f"{P}:Slope")],
 ["number of planes", "FOS of planes"])

prop("P11", "Search limits are ordered, clamped to the model and kept when not given",
 "Each of the four limits may be set on its own; the others keep their value. Accepted limits always satisfy 0 <= left < left inner <= crest <= right inner < right <= model width, values beyond the model or crest are clamped, limits out of order raise ValueError, and rebuilding the boundary or removing limits restores the unrestricted range.",
 ["inputs", "histories"], "all subsets and values of the four limits on every model",
 "Tests set all four limits once, or both outer ones, and never read them back.",
 [P], [("limits", f"{P}:Slope.set_analysis_limits, remove_analysis_limits"), ("reset on rebuild", f"{P}:Slope.set_external_boundary")],
 [("_limits", "entry and exit ranges", f"{P}:Slope")], ["limit markers of plot_boundary", "end points of planes"])

prop("P12", "Reported end points are where the circle leaves the ground surface",
 "For every reported failure plane both end points lie on its circle and on the ground surface of the current model, the first is left of the second, and they are the first two distinct crossings of circle and ground from the left (entry on the crest surface or face, exit on the face or toe surface). This holds for user planes also when the model changes after they were added, and a circle that does not cross the ground twice is never reported.",
 ["inputs", "histories"], "all circles (searched or user supplied) on all models",
 "No test looks at end points; crossing selection depends on the case analysis of three surface segments.",
 [P, U], [("intersection", f"{P}:Slope._get_circle_external_intersection"), ("line-circle", f"{U}:cirle_line_intersection")],
 [], ["get_min_FOS_end_points", "get_min_FOS_circle", "plot_all_planes"])

prop("P13", "The search reports only planes inside the limits and long enough",
 "Without user planes, every reported failure plane enters within the left range of the analysis limits, exits within the right range, and has end points further apart than the minimum failure distance; this includes planes generated next to loads and planes whose circle cuts the face first.",
 ["inputs", "configurations"], "all models, loads, limits and distances",
 "No test checks any plane of a search against the limits.",
 [P], [("trial planes", f"{P}:Slope._set_entry_exit_planes, _generate_planes")],
 [("_limits, _min_failure_distance", "search restrictions", f"{P}:Slope")], ["end points of all planes"])

prop("P14", "The search covers the whole permitted range at the requested density",
 "Without user planes, trial planes are circles through pairs of an entry point and an exit point: entry points evenly spaced over the whole entry range including both ends plus one immediately behind every load, exit points evenly spaced over the exit range including its far end, and at least five different radii per pair. Without loads the number of trials is at least the number of iterations requested; every trial within the limits that can be analysed is reported, and any number of loads is accepted.",
 ["inputs", "configurations"], "all limits, iteration counts and load sets",
 "Tests only check that between 800 and 1200 planes result from 1000 iterations on one slope.",
 [P], [("entry and exit points", f"{P}:Slope._set_entry_exit_planes"), ("circles", f"{P}:Slope._generate_planes")],
 [("_iterations", "requested number of trials", f"{P}:Slope")], ["all planes after analyse_slope", "get_min_FOS_circle"])

prop("P15", "Results are complete, sorted, and the minimum is the critical plane",
 "After an analysis the reported planes are exactly the candidate planes for which a factor of safety exists (and that do not exceed max_fos if one is given), in ascending order of factor of safety; minimum factor of safety, critical circle and end points all belong to the first of them. If any user plane has been added, only user planes are candidates; removing them restores the automatic search.",
 ["inputs", "histories"], "all models, plane sets and max_fos values",
 "Tests check plane counts for one model; order, filter and consistency of the getters are not asserted.",
 [P], [("analysis", f"{P}:Slope.analyse_slope"), ("user planes", f"{P}:Slope.add_single_circular_plane, add_single_entry_exit_plane, remove_individual_planes")],
 [("_individual_planes", "user planes", f"{P}:Slope")], ["get_min_FOS", "get_min_FOS_circle", "get_min_FOS_end_points", "plot_all_planes"])

prop("P16", "Factor of safety solves Bishop's equation for the layered soil",
 "For every reported plane of a dry unloaded slope the factor of safety F satisfies Bishop's simplified moment equilibrium over the configured number of equal-width slices, to within the configured tolerance: slice weight is the sum over strata of unit weight times the part of the slice in the stratum, and cohesion and friction are those of the stratum at the base of the slice. It is the value the iteration reaches that starts from the ordinary method of slices and ends at the first step that changes it by less than the configured tolerance, or after the configured number of steps. A plane without any resistance has the factor of safety 0. A plane gets no factor of safety if and only if there are no strata, the driving moment is not positive, or the resistance comes out negative.",
 ["inputs"], "all slopes, strata columns, circles and slice counts",
 "Tests compare five radii on one slope with another program at 1 %; a wrong stratum lookup or width elsewhere goes unseen.",
 [P], [("Bishop", f"{P}:Slope._analyse_circular_failure_bishop"), ("weights", f"{P}:Slope._calculate_strip_weights")],
 [], ["FOS of planes"])

prop("P17", "Loads enter the equilibrium with exactly their force on the sliding mass",
 "For every plane a uniform load adds to each slice its pressure times the overlap of load strip and slice, a line load adds its full magnitude to exactly the slice containing it, loads outside the sliding mass add nothing, and the factor of safety solves Bishop's equation with these weights to within the tolerance. Several loads add up and equal loads may be split or merged without effect.",
 ["inputs"], "all load sets, slopes, circles and slice counts",
 "Two tests with a single load each compare with another program at 1 %.",
 [P], [("load terms", f"{P}:Slope._analyse_circular_failure_bishop")],
 [], ["FOS of planes"])

prop("P18", "Pore pressure follows the water table and the water factor",
 "For every plane the uplift on a slice is 9.81 times the head between slice base and the lower of water table and ground, never negative, reduced by the water factor only where the slice lies between the point where the water table meets the face and the toe; the factor of safety solves Bishop's equation with these uplifts to within the tolerance. A water table below the slip surface has no effect.",
 ["inputs"], "all water depths, factors, slopes, strata, circles",
 "One test with one water depth at 1 %, and one inequality on three planes.",
 [P], [("uplift", f"{P}:Slope._analyse_circular_failure_bishop"), ("water options", f"{P}:Slope.update_water_analysis_options")],
 [], ["FOS of planes"])

prop("P19", "Dynamic analysis probes, brackets and reports offsets faithfully",
 "A dynamic analysis first tries offset 0 and returns 0 if that already exceeds the target; otherwise it tries the furthest offset and returns 1 if that is still below the target; otherwise it makes at most 10 further probes, each inside the offset interval known to straddle the target, and stops early only at a probe that meets the target. Every recorded pair of offset and factor of safety is the minimum factor of safety of the model with all dynamic loads at that offset and all other loads where they were, and results and plots afterwards belong to the last probe.",
 ["inputs", "histories"], "all models, static and dynamic load sets, targets",
 "One test asserts only that some result exists.",
 [P], [("search on offset", f"{P}:Slope.analyse_dynamic"), ("moving loads", f"{P}:Slope._set_dynamic_offset")],
 [("_dynamic_results", "offset -> FOS", f"{P}:Slope")], ["get_dynamic_results", "get_min_FOS", "load offsets"])

prop("P20", "Queries, plots and analyses do not change the model",
 "Result getters, surface queries, prints and plots change neither the model nor the results, in any order and number; analysing changes only the results. Repeating any of them without an intervening edit gives the same answer.",
 ["histories"], "all interleavings of read-only calls, analyses and edits",
 "Tests call each plot once and discard the figure.",
 [P], [("getters and plots", f"{P}:Slope.get_*, plot_*"), ("analysis", f"{P}:Slope.analyse_slope")],
 [], ["full state before and after each read-only call"])

prop("P21", "Slopes do not interfere, even when they share strata or loads",
 "Operations on one slope (edits, removals, analyses, dynamic analyses) never change the model or results of another slope, also when the same material or load objects are assigned to both or when a slope changes shape or size afterwards.",
 ["histories", "schedules"], "all interleavings of operations on several slopes sharing objects",
 "Tests use one slope at a time and never share objects between differing slopes.",
 [P], [("per-slope copies or coordinates", f"{P}:Slope.set_materials, set_udls, set_lls, _set_dynamic_offset")],
 [("RL, left, right, coord, offset", "per-slope data kept on shared objects", f"{P}:Material, Udl, LineLoad")], ["state of the other slope after each call"])

prop("P22", "The boundary plot shows the model as analysed",
 "The boundary plot draws the model outline, one polygon per stratum whose lower edge is at the stratum's level and which together tile the ground below the surface (a model without strata is drawn as its outline only), every load at its position, the water line at its level, and limit markers at the limits in force. It succeeds for every model that can be built.",
 ["inputs", "histories"], "all models reachable by the API",
 "Tests only check that plotting one slope does not raise.",
 [P], [("plot", f"{P}:Slope.plot_boundary, _plot_udl, _plot_ll, _plot_water, _plot_limits")],
 [], ["figure returned by plot_boundary"])

prop("P23", "Failure plots show exactly the planes and values of the analysis",
 "For every analysed model the critical plot shows the plane with the minimum factor of safety with its circle centre, radius and value, and the all-planes plot shows in addition exactly the planes with factor of safety below the given maximum, each running along its circle from its entry to its exit point and coloured by its factor of safety, the lower above the higher. Neither fails for any plane or factor of safety an analysis can report.",
 ["inputs"], "all analysed models, planes and display limits",
 "Tests only check that plotting one slope does not raise.",
 [P, U], [("plots", f"{P}:Slope.plot_critical, plot_all_planes, _plot_failure_plane"), ("colour scale", f"{U}:create_fos_color_dictionary")],
 [], ["figures returned by plot_critical and plot_all_planes"])

prop("P24", "A web submission gives the result of the same model in the library",
 "For every valid submission the stored and displayed planes and factors of safety equal those of a library model built from the submitted slope, strata, loads, water table, limits and options (normal analysis limited to factors of safety up to 5, or dynamic analysis with the submitted target), and each displayed plane runs from its entry to its exit point.",
 ["inputs"], "all valid combinations of form values",
 "The web application has no tests.",
 [W, "slope/forms.py"], [("form to model", f"{W}:create_slope"), ("display data", f"{W}:index")],
 [("session search, plot_json", "stored results", W)], ["response context and session after POST /"])

prop("P25", "Web sessions: last valid submission is kept, reset and errors clear it",
 "Per browser session, a page load shows the most recent valid submission with its results, or the default model if there is none; a submission that is invalid, in form or as a model, and a reset both send the browser through the reset that discards what was stored; the report download contains exactly the stored planes below the requested factor of safety, drawn as in the plot of all planes, or leads back to the page when nothing is stored. No request sequence causes a server error or shows one session's data in another.",
 ["histories", "schedules", "inputs"], "all request sequences of several browser sessions",
 "The web application has no tests.",
 [W], [("views", f"{W}:index, reset, pdf")],
 [("session", "forms, search, plot_json", W)], ["responses and session contents after each request"])

J = "static/slope"
T = "slope/templates/slope/index.html"
prop("P26", "Rows added, deleted and filled in on the page are the rows submitted",
 "Whatever sequence of adding, deleting and filling in rows of strata, uniform loads and line loads is performed on the page in a browser, the form would submit exactly the rows shown: the submitted number of rows of each kind is the number shown and never less than one (the last row stays), the i-th row shown is submitted under the i-th index with the values it shows, rows that stay keep their values and order, and rows of other kinds and other fields are untouched. A new row comes last and starts with the values the first row of the page started with; adding and deleting never submit the form.",
 ["histories"], "all sequences of adding, deleting and editing rows of the three kinds, any number of rows",
 "The scripts of the page have no tests.",
 [f"{J}/add_rows.js", T], [("adding, deleting and renumbering", f"{J}/add_rows.js")],
 [("rows, TOTAL_FORMS", "the form sets in the page", T)], ["data the form would submit", "rows shown"])

prop("P27", "The chart on the page shows exactly the planes below the slider",
 "After any sequence of moves of the display slider, window sizes and edits of the form, the chart on the page shows the plot as served followed by exactly the served planes with factor of safety below the slider's value, each once along its path, in the colour of its factor of safety (nearest tenth, the last colour above the scale) and labelled with it to three decimals, the most critical on top. It fits the window; below a width of 900 pixels the notes of the plot are left out and the page lists instead the strata of the analysed model (name, colour, unit weight, cohesion, friction angle) and the colour scale with its ends, and otherwise shows the notes and hides these lists.",
 ["histories", "inputs"], "all sequences of slider moves, resizes and edits; all served results",
 "The scripts of the page have no tests.",
 [f"{J}/charting.js", T], [("chart", f"{J}/charting.js:createPlot, updateFOS")],
 [("search, plot_json, COLOUR_FOS_DICT", "data served with the page", T)], ["traces and layout of the chart", "tables of the page"])

prop("P28", "Buttons, hidden fields and slider labels follow the state of the form",
 "On the page a new analysis can be started exactly when anything but the display slider was changed since the page was served: any field, list or row, also one that was added, and adding or deleting a row. The report link asks for the planes below the current slider value until such a change, and from then on is disabled and leads nowhere whatever the slider does. Exactly the fields that matter are visible: angle or length as chosen, the water depth only with water, the limits only with limits, the inner limits only with both. Every slider is labelled with its current value. The busy indicator is hidden until an analysis, a report or a reset is asked for and shown then; only the button for it asks for the analysis, once per press.",
 ["histories"], "all sequences of changes of fields, rows, choices, sliders and window sizes",
 "The scripts of the page have no tests.",
 [f"{J}/button_control.js", f"{J}/update_pdf_link.js", f"{J}/hide_form.js", f"{J}/slider_values.js", T],
 [("buttons", f"{J}/button_control.js, update_pdf_link.js"), ("visibility", f"{J}/hide_form.js"), ("labels", f"{J}/slider_values.js")],
 [], ["state of the buttons", "visible fields", "labels"])

prop("P29", "Tables, labels and legends of plots name what the model contains",
 "Every plot of a model with strata labels each stratum with its name, unit weight, cohesion and friction angle and each load with its magnitude. The table of strata is drawn unless declined and then lists the strata from top to bottom with name, colour, unit weight, cohesion and friction angle under the heads of these columns. The legend is drawn exactly when asked for (by default only in the plot of all planes), once, with one swatch for every tenth of the factor of safety from 0 to 5 in distinct colours, the ones planes are drawn in, and the whole numbers at their swatches.",
 ["inputs", "histories"], "all models reachable by the API, all three plots and their options",
 "Tests only check that plotting one slope does not raise.",
 [P, U], [("table", f"{P}:Slope._plot_material_table"), ("legend", f"{P}:Slope._plot_FOS_legend"), ("load labels", f"{P}:Slope._plot_udl, _plot_ll")],
 [], ["annotations and shapes of the figures"])

prop("P30", "Printed reports state the current model and results",
 "A slope prints as its current height and face length, a stratum with its name, unit weight, friction angle, cohesion and depth, a load with its magnitude, offset and, if it has an end, its length, otherwise as continuous. Printing the dynamic results gives one line per recorded pair of offset and factor of safety, in the order of the results and correct to three decimals; the results of an analysis that converged are listed from the lowest factor of safety up.",
 ["inputs", "histories"], "all models reachable by the API; all outcomes of dynamic analyses",
 "The examples in the documentation sample four objects; the report of a dynamic analysis is not tested at all.",
 [P], [("printed forms", f"{P}:Slope.__repr__, Material.__repr__, Udl.__repr__, LineLoad.__repr__"), ("report", f"{P}:Slope.print_dynamic_results")],
 [], ["repr of the objects", "standard output of print_dynamic_results"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for o in out:
        f.write(json.dumps(o) + "\n")
print(len(out), "properties")
