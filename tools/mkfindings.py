#!/usr/bin/env python3
"""Writes /verif/known_findings.json: repaired defects (they suppress nothing) and open findings."""
import json, os, subprocess
F = [  # subject of the fix commit, properties, what failed
 ("keep the largest load magnitude, not the load, after removing a udl", ["P06", "P22"], "remove_udls kept a Udl object as largest magnitude: the next plot or removal raised"),
 ("remove every matching load, also adjacent duplicates", ["P06"], "of two equal loads only one was removed (list changed while iterating)"),
 ("allow setting a single inner analysis limit", ["P11"], "set_analysis_limits with only an inner limit raised or ignored it"),
 ("refuse zero where a strictly positive number is required", ["P09"], "height 0, angle 0 and other zeros were accepted"),
 ("keep strata and water at their depth when the model is resized", ["P02"], "levels of strata and water stayed at the old elevation when the model height changed"),
 ("follow the slope angle with the automatic water factor", ["P10"], "the automatic water factor stayed that of the old slope angle"),
 ("leave the model unchanged when set_materials refuses a duplicate depth", ["P07"], "a refused duplicate depth had already changed the strata; an empty call raised"),
 ("remove a material of depth 0", ["P06"], "remove_material(depth=0) did nothing"),
 ("validate both extents before changing either", ["P07"], "update_boundary_options changed the height before refusing the width"),
 ("do not shrink the model below its loads and strata", ["P03", "P01"], "reducing the extents left loads and strata outside of the model"),
 ("let each slope own its strata and loads", ["P21"], "slopes sharing materials or loads changed each other's levels, positions and offsets"),
 ("pass all trial circles through the entry and exit point", ["P14"], "after the first circle of a fan the entry and exit point were replaced by its end points"),
 ("report only failure planes inside the analysis limits", ["P13"], "planes next to loads and planes cutting the face were reported outside of the limits"),
 ("apply the minimum failure distance to the actual failure plane", ["P13"], "planes shorter than the minimum failure distance were reported"),
 ("search the entry range for any number of loads", ["P14"], "many loads left one or no evenly spaced entry point: division by zero or no search"),
 ("plot critical planes narrower than the spacing of circle points", ["P23"], "plot_critical raised for narrow planes"),
 ("report end points of user planes on the current boundary", ["P12"], "user planes kept the end points of the slope they were added to"),
 ("use the top of the slope as range of dynamic loads", ["P19"], "the furthest offset of dynamic loads was taken from an unrelated list"),
 ("end dynamic analysis when the bracket has a single factor of safety", ["P19"], "division by zero if both ends of the bracket have the same factor of safety"),
 ("run dynamic analyses of the web application", ["P24"], "every dynamic analysis submitted to the web application failed"),
 ("lead back to the page if there is nothing to report as pdf", ["P25"], "the report of a session without results was a server error"),
 ("treat submissions without a possible result as invalid", ["P25"], "submissions the library refuses or cannot analyse were server errors"),
 ("report a factor of safety of 0 if there is no resistance", ["P16", "P15"], "a plane without any resistance got NaN"),
 ("update all or none of the analysis options", ["P07"], "update_analysis_options changed some options before refusing another"),
 ("keep the model deep enough for its strata when the slope shrinks", ["P01", "P02"], "strata ended below the base after the slope was made smaller"),
 ("take a malformed hex code as no colour", ["P06", "P08", "P09", "P07"], "colour '#12' raised AttributeError, in set_materials after the model had been enlarged"),
 ("a load with an empty colour gets the default colour", ["P22"], "a load with colour '' could not be plotted"),
 ("keep the last exit point within the limits", ["P14", "P19"], "the analysis of a slope whose last exit point came out beyond the model by rounding raised TypeError (e.g. height 7.741526759944153, angle 20)"),
 ("treat submissions out of the range of numbers as invalid", ["P25"], "a submission with a number too large to compute with (load offset 1e154) caused a server error"),
 ("report stored planes without evaluating them as code", ["P25"], "the report of planes with an infinite factor of safety (cohesion 1e308, dynamic analysis) caused a server error"),
 ("drop planes whose factor of safety is not a number", ["P15", "P25"], "planes with the factor of safety nan (load of 1e308 kPa) were reported, and plotting them failed"),
 ("count every line load in exactly one slice", ["P17"], "a line load where two slices meet was counted in both or in neither of them (rounding of the slice edges)"),
 ("number rows of the forms correctly from the eleventh on", ["P26"], "after deleting a row or adding one while the first row was renumbered, rows with index 10 and above kept a wrong index"),
 ("offer no report of a form that has been changed", ["P28"], "moving the display slider after a change of the form gave the disabled report link its address back"),
 ("allow a new analysis after any change of the form", ["P28"], "changes of lists, of rows that were added, and adding or deleting rows did not enable the analysis"),
 ("show the chart on small screens", ["P27"], "below a window width of 900 no chart was shown, or that of before"),
 ("list the strata of the model on small screens", ["P27"], "the list of strata showed the rows of the form with the colours of other strata, or stayed empty"),
 ("show names of strata as they are on small screens", ["P27"], "names of strata were taken for markup"),
 ("analyse_slope with max_fos 0 reported every plane", ["P15"], "a max_fos of 0 was taken as none given"),
 ("slices and iterations of 0 were ignored instead of clamped", ["P10"], "0 slices or iterations were taken as not given"),
 ("no boundary point at levels below the model", ["P01"], "get_external_x_intersection of a level below the model was the right edge"),
 ("refuse values that are not a number", ["P09", "P11"], "NaN was accepted wherever a number is asked for"),
 ("plot_all_planes drew the legend twice and regardless of the legend option", ["P29"], "plot_all_planes always drew the legend, and twice if asked for it"),
 ("label the factor of safety legend up to 5 on small screens", ["P27"], "the colour scale from 0 to 5 was labelled 0 to 3"),
]
OPEN = []
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
out = []
for subject, props, what in F:
    c = [l.split()[0] for l in log if l.split(" ", 1)[1] == "fix: " + subject]
    assert len(c) == 1, subject
    for p in props:
        out.append(dict(status="fixed", property=p, commit=c[0], what=what, line=f"fixed: property={p} {c[0]} {what}"))
fixes = [l for l in log if l.split(" ", 1)[1].startswith("fix: ")]
assert len(fixes) == len(F), (len(fixes), len(F))
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
json.dump(out + OPEN, open(os.path.join(root, "known_findings.json"), "w"), indent=1)
print(len(fixes), "fixes", len(OPEN), "open")
