"""Writes /verif/properties.jsonl (kept as Python for readable diffs)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     **({"observe_at": observe} if observe else {}))))

p("C01", "Farm results do not depend on the engine, worker count or chunking",
  "A farm calculation gives the same table whatever engine runs it, whatever the number of workers, the chunk sizes and the order in which chunks finish: every input state and every turbine appears exactly once, at its own place and with its own label, carrying the values that a single-chunk run gives. This also holds for time-dependent inflow and for models that read data by absolute state position.",
  ["schedules", "configurations", "inputs"],
  "all engines available offline (default, single, numpy, threads, process, multiprocess, dask, local cluster, ray, mpi-style pools), all numbers of workers and chunk sizes, all completion orders of chunks, all inputs",
  "The tests run a few fixed farms with one engine and one chunking; none compares engines, and completion orders are never varied.",
  ["foxes/core/engine.py", "foxes/core/data.py", "foxes/engines/*.py"],
  [("chunk partition", "foxes/core/engine.py:calc_chunk_sizes"), ("chunk input slicing", "foxes/core/engine.py:get_chunk_input_data"), ("reassembly", "foxes/core/engine.py:combine_results"), ("job execution", "foxes/engines/pool.py:_run")],
  ["return value of calc_farm"])
p("C02", "Results at points do not depend on chunking or on the other points",
  "Evaluating a list of points after a farm calculation returns, for every state, one value per point in the order of the list, and the value at a point does not depend on the engine, on how states and points are split into chunks, or on which other points are evaluated in the same call. Points that differ between states are evaluated at the coordinates given for that state.",
  ["schedules", "configurations", "inputs"],
  "all engines, chunk sizes in states and in points, all lists of points (common or per state, duplicated, re-ordered, split)",
  "No stable test calls the point calculation with more than one chunk, and none compares sub-lists of points.",
  ["foxes/core/engine.py", "foxes/core/data.py", "foxes/algorithms/downwind/downwind.py", "foxes/algorithms/downwind/models/point_wakes_calc.py"],
  [("target chunks", "foxes/core/engine.py:calc_chunk_sizes"), ("target slicing", "foxes/core/data.py:TData.from_dataset"), ("reassembly", "foxes/core/engine.py:combine_results")])
p("C03", "A state's results depend only on that state's inflow",
  "For wakes that are steady within each state, the results of a state are determined by that state's own inflow data: re-ordering the states re-orders the results in the same way, removing or duplicating states leaves the others unchanged, and selecting states (by position or by label, in the inflow table or when evaluating points) gives exactly the corresponding rows of the full run.",
  ["inputs", "configurations"],
  "all tables of states, all selections, permutations, subsets and duplications of states; all steady wake set-ups",
  "Tests use fixed state tables and compare to stored numbers; vectorised code that mixes states is only seen if a particular number changes.",
  ["foxes/input/states/*.py", "foxes/algorithms/downwind/*", "foxes/core/*.py"],
  [("state axis kept first in all data", "foxes/core/data.py"), ("state selection", "foxes/core/engine.py:select_subsets"), ("table selection", "foxes/input/states/states_table.py:load_data")])
p("C04", "At most one engine is active and its life cycle is enforced",
  "At any moment at most one calculation engine is registered; activating a second one is refused and leaves the first registered, leaving or finalizing the active one always clears the registration, entering twice or leaving without entering is refused, and an engine can be used again after it was left. The default engine hands over to its worker engine and is registered again after each calculation.",
  ["histories", "fault_sequences"],
  "all sequences of enter, exit, initialize, finalize, reset, implicit default selection, calculation and failing calculation over several engines",
  "Tests only use one engine in a single with-block.",
  ["foxes/core/engine.py", "foxes/engines/default.py", "foxes/engines/pool.py", "foxes/engines/dask.py"],
  [("global registration", "foxes/core/engine.py:Engine.initialize/finalize"), ("hand over", "foxes/engines/default.py")])
p("C05", "Calculations are repeatable: results do not depend on the call history",
  "Whatever sequence of farm calculations, point calculations, finalizations, ambient runs and changes of inflow was executed before on an algorithm object, a farm or point calculation returns what a newly created object with the same inputs returns, and the input objects and tables handed in by the user are not altered. While a calculation is running, access to the model book, the data book and the stored model data is refused, and afterwards all of it is available again.",
  ["histories"],
  "all finite sequences of public calls on one algorithm and on algorithms sharing models",
  "Tests call each calculation once per object.",
  ["foxes/core/algorithm.py", "foxes/core/model.py", "foxes/algorithms/downwind/downwind.py", "foxes/algorithms/iterative/iterative.py"],
  [("running stash", "foxes/core/algorithm.py:set_running/unset_running"), ("model data store", "foxes/core/algorithm.py:store_model_data"), ("initialize/finalize", "foxes/core/model.py")])
p("C06", "Results belong to turbines, whatever order they are listed in",
  "Listing the turbines of a farm in another order permutes the columns of the farm results in the same way and changes nothing else: each turbine keeps its own name, position, size, models and results, and results at points stay the same. The reported order of turbines along the wind is, for every state, a permutation sorted from upstream to downstream, and its reported inverse inverts it.",
  ["inputs", "configurations"],
  "all farms, all permutations of the turbines, all wind directions, turbine-dependent models, sizes and selections",
  "Tests use fixed listings, mostly rows already listed along the wind.",
  ["foxes/algorithms/downwind/models/init_farm_data.py", "foxes/algorithms/downwind/models/reorder_farm_output.py", "foxes/core/farm_controller.py"],
  [("re-ordering along the wind", "foxes/algorithms/downwind/models/init_farm_data.py"), ("order back", "foxes/algorithms/downwind/models/reorder_farm_output.py"), ("turbine selections", "foxes/core/farm_controller.py")])
p("C07", "Wakes propagate causally: each upstream turbine counts once, fully evaluated",
  "In the single-pass algorithm every turbine sees the wake of exactly those turbines that lie upstream of it (downstream for blockage models), each exactly once per wake model and with the operating point that it has after its own wakes were applied; a turbine never sees itself, and adding or changing a turbine changes nothing upstream of it. Mixing upstream- and downstream-acting models is refused there, and accepted by the iterative algorithm, where every other turbine counts once.",
  ["inputs", "configurations"],
  "all layouts, wind directions, numbers of turbines and sets of wake models, per state",
  "Tests compare totals for a few rows; double counting or stale operating points that cancel or stay below tolerance are not visible.",
  ["foxes/algorithms/downwind/models/farm_wakes_calc.py", "foxes/algorithms/iterative/models/farm_wakes_calc.py", "foxes/core/ground_model.py"],
  [("pass along the wind", "foxes/algorithms/downwind/models/farm_wakes_calc.py"), ("all-pairs pass", "foxes/algorithms/iterative/models/farm_wakes_calc.py")])
p("C09", "The iterative algorithm reaches the single-pass fixed point and terminates",
  "For wakes that act downstream only, the iterative algorithm gives the single-pass results; in general it stops after the first iteration whose results differ from the previous ones by no more than the limits in every monitored variable (angles compared on the circle), never stops while convergence is blocked, and never exceeds the iteration limit. Results come in the order of the farm for every combination of outputs, ambient and relaxation options.",
  ["inputs", "configurations", "histories"],
  "all farms and wake set-ups, iteration limits, convergence limits, relaxation and ambient options",
  "One test compares the two algorithms on one farm with converged defaults; stopping rules are never exercised.",
  ["foxes/algorithms/iterative/iterative.py", "foxes/algorithms/iterative/models/*.py"],
  [("iteration loop", "foxes/algorithms/iterative/iterative.py:calc_farm"), ("criteria", "foxes/algorithms/iterative/models/convergence.py"), ("model lists", "foxes/algorithms/iterative/iterative.py:_collect_farm_models")])
p("C10", "Stepping through states sequentially equals the batch calculation",
  "The sequential algorithm visits every state exactly once, in order, reports its position and label while doing so, gives at each step the row that the batch calculation gives, and accumulates these rows so that after the last step its farm and point results equal the batch results. Plug-ins are initialised once, updated once per step with that step's results, and finalised once, and the object can be iterated again.",
  ["inputs", "histories", "configurations"],
  "all tables of states, farms and plug-ins; all interleavings of stepping and reading results; repeated iteration",
  "Only one example drives the sequential algorithm, without comparing to a batch run.",
  ["foxes/algorithms/sequential/sequential.py", "foxes/algorithms/sequential/models/*.py"],
  [("iterator protocol", "foxes/algorithms/sequential/sequential.py:__iter__/__next__"), ("state wrapper", "foxes/algorithms/sequential/models/seq_state.py")])
p("C11", "Results are unchanged by moving the farm and the wind rigidly",
  "For inflow that is the same everywhere, shifting all turbines, points and reference positions by a common vector leaves all results unchanged apart from the coordinates, and rotating them about any centre while turning the wind direction by the same angle leaves all speeds, loads and powers unchanged and turns directions by that angle.",
  ["inputs", "configurations"],
  "all shifts and rotation angles (including across north), all layouts, wake models, frames, rotor and partial wake models",
  "Tests use one wind direction per case; errors on another quadrant or across 0/360 degrees stay invisible.",
  ["foxes/models/wake_frames/*.py", "foxes/models/partial_wakes/*.py", "foxes/models/rotor_models/*.py", "foxes/utils/wind_dir.py"],
  [("wake coordinates", "foxes/models/wake_frames/rotor_wd.py"), ("rotor points", "foxes/core/rotor_model.py"), ("direction vectors", "foxes/utils/wind_dir.py")])
p("C12", "Wake superposition combines exactly the contributions its name says",
  "The combined wake effect at a point is the sum, root of the sum of squares or general power, maximum, minimum or product of the individual contributions, scaled as the model's name says (by ambient or local wind speed), whatever the order in which they are added; without any contribution the ambient value is unchanged, contributions at one point do not leak to other points, and declared lower and upper limits on the result are respected.",
  ["inputs", "configurations"],
  "all sets and orders of contributions, all superposition models, all point selections, including none",
  "Tests cover two superposition models with full selections.",
  ["foxes/models/wake_superpositions/*.py", "foxes/core/wake_superposition.py", "foxes/core/wind_vector... "],
  [("add_wake / calc_final_wake_delta", "foxes/models/wake_superpositions/*.py")])
P[-1]["anchors"]["files"] = ["foxes/models/wake_superpositions/*.py", "foxes/core/wake_superposition.py"]
p("C13", "Turbine models run in the configured order, only where configured",
  "For each turbine exactly the models configured for it are applied, once per evaluation, in the order listed for it, models meant to run before the rotor calculation before it and the others after it, with their own parameters and only for the states and turbines selected for them. Orders that cannot be merged consistently, unknown models and turbines with no or with several turbine types are refused.",
  ["configurations", "inputs"],
  "all assignments of model lists, selections and parameters to turbines",
  "Tests use the same model list for all turbines.",
  ["foxes/core/farm_controller.py", "foxes/core/farm_data_model.py"],
  [("merge of model lists", "foxes/core/farm_controller.py:_analyze_models"), ("selections", "foxes/core/farm_controller.py:load_data"), ("execution", "foxes/core/farm_controller.py:calculate")])
p("C14", "Time-dependent wakes travel forward in time and reduce to steady ones",
  "With time-dependent wake frames the result at a time depends on the inflow and turbine operation at that and earlier times only, a wake emitted at one time reaches a distance only after the inflow had time to travel it, and for inflow that never changes the results equal the steady ones once the farm was flushed. The results do not depend on how the times are split into chunks.",
  ["inputs", "schedules", "configurations"],
  "all time series, time steps, maximal wake ages, layouts and chunk sizes",
  "One example runs dynamic wakes in one chunking without checking values.",
  ["foxes/models/wake_frames/timelines.py", "foxes/models/wake_frames/dynamic_wakes.py", "foxes/input/states/one_point_flow.py"],
  [("trace back in time", "foxes/models/wake_frames/timelines.py"), ("wake propagation over chunks", "foxes/models/wake_frames/dynamic_wakes.py"), ("chunk store", "foxes/core/algorithm.py")])
p("C15", "Ambient results are free of wakes",
  "The ambient quantities in farm and point results equal the quantities of the same calculation without any wakes, whatever wake models, frames, algorithm or wake sources are configured; an ambient-only run returns exactly these ambient quantities, in the order of the farm; and where no wake reaches, waked and ambient quantities agree.",
  ["inputs", "configurations"],
  "all farms, inflow and wake set-ups, all algorithms",
  "Tests look at waked results only, for few set-ups.",
  ["foxes/algorithms/downwind/models/set_amb_farm_results.py", "foxes/algorithms/downwind/models/set_amb_point_results.py", "foxes/algorithms/downwind/downwind.py"],
  [("copy of ambient results", "foxes/algorithms/downwind/models/set_amb_*.py"), ("ambient switch", "foxes/algorithms/downwind/downwind.py:calc_farm")])
p("C16", "A model name selects exactly the model and parameters it spells out",
  "Looking up a model by name returns the registered object of that name, or else the object that the first matching name pattern describes, with every value spelled in the name arriving in the parameter it stands for; the same name always gives the same object, distinct parameter values give distinct objects, and names that match nothing are refused. Whether a name is reported as known agrees with whether it can be looked up.",
  ["inputs", "histories"],
  "all registered names and patterns of the model book, all values in the patterns, all lookup sequences, and generated patterns",
  "Tests look up about ten names.",
  ["foxes/models/model_book.py", "foxes/utils/factory.py", "foxes/utils/dict.py"],
  [("pattern parsing", "foxes/utils/factory.py:Factory"), ("lookup and caching", "foxes/utils/factory.py:FDict"), ("catalogue", "foxes/models/model_book.py")])
p("C17", "Evaluated farm quantities are the defined reductions of the results",
  "Means, weighted means, sums, minima, maxima and deviations over states, over turbines or over both are those reductions of the results with the weights of the states, and power, yield, capacity and efficiency follow from them with the units, durations and nominal powers given; farm quantities are consistent with the turbine quantities, and evaluation does not change the data it reads except by adding the announced quantity.",
  ["inputs", "configurations"],
  "all result tables, weights, reductions, units, durations and time axes",
  "Tests do not check evaluation outputs against definitions.",
  ["foxes/output/farm_results_eval.py"],
  [("reductions", "foxes/output/farm_results_eval.py")])
p("C18", "Inflow objects deliver the tabulated data at each state, height and place",
  "For every kind of inflow the quantity delivered at a state and a position is the tabulated value of that state, fixed values replace table columns, values between tabulated heights or grid nodes are interpolated between the neighbouring entries (wind as a vector), tabulated nodes are reproduced, profiles reproduce the reference value at the reference height, and the weights of the states are the given weights, the given frequencies, or uniform with sum one.",
  ["inputs", "configurations"],
  "all inflow types, tables, grids, column mappings, fixed values, heights and selections",
  "Tests mostly use single-state or one-table inflow.",
  ["foxes/input/states/*.py", "foxes/models/vertical_profiles/*.py", "foxes/utils/abl/*.py", "foxes/utils/tab_files.py"],
  [("table to state data", "foxes/input/states/states_table.py"), ("height interpolation", "foxes/input/states/multi_height.py"), ("grid interpolation", "foxes/input/states/field_data_nc.py")])
p("C19", "Written results read back as the results",
  "Files written from farm results contain every requested variable for every state and turbine under the requested names, and reading them back gives the same values up to the declared rounding, in the same order; writing does not alter the results or the caller's arguments, and what a call writes does not depend on files written before.",
  ["inputs", "histories"],
  "all result tables, selections and renamings of variables, formats and sequences of writes",
  "No stable test reads an output file back.",
  ["foxes/output/results_writer.py", "foxes/output/output.py", "foxes/output/state_turbine_table.py", "foxes/utils/pandas_helpers.py", "foxes/utils/xarray_utils.py"],
  [("writer", "foxes/output/results_writer.py"), ("table file helper", "foxes/utils/pandas_helpers.py")])
p("C20", "A parameter dictionary or file runs the same calculation as the API",
  "Running a calculation described by a dictionary or a file gives the results of the calculation composed by hand from the same objects: each listed model, layout, algorithm, engine and output option takes effect exactly as written, outputs run in the listed order with labelled results available to later ones, the engine is released afterwards, and the outcome does not depend on runs made before.",
  ["configurations", "histories"],
  "all parameter dictionaries within the documented format and all sequences of runs",
  "No stable test uses the dictionary interface beyond one example.",
  ["foxes/input/yaml/dict.py", "foxes/input/yaml/yaml.py", "foxes/utils/dict.py"],
  [("dictionary interpretation", "foxes/input/yaml/dict.py")])
p("C21", "Area geometry obeys set algebra and gives true boundary distances",
  "Membership of points in areas built from half planes, circles, polygons, unions, intersections, differences and inversions follows the set operations they denote, for nested combinations in any order; reported bounds enclose the area, and reported distances and nearest points of basic areas are those of the boundary.",
  ["inputs", "configurations"],
  "all nested combinations and all points",
  "The stable tests do not exercise area geometry.",
  ["foxes/utils/geom2d/*.py"],
  [("combinations", "foxes/utils/geom2d/area_geometry.py"), ("primitives", "foxes/utils/geom2d/{circle,half_plane,polygon}.py")])
p("C22", "Chunk data hold the right slice and stored chunk data are found again",
  "Data cut out of a larger data set for a chunk hold exactly the requested rows and targets, keep absolute state and target positions, are independent copies where a copy was asked for, and refuse entries whose sizes disagree. Data stored by a chunk are found again by that chunk and by its followers in state or target direction at the right distance, and nothing else is found.",
  ["inputs", "histories", "configurations"],
  "all shapes and slices, all partitions into chunks, all orders of storing and looking up",
  "Tests never inspect chunk data; the previous-chunk lookup is used by one example.",
  ["foxes/core/data.py", "foxes/core/algorithm.py"],
  [("slicing", "foxes/core/data.py"), ("chunk store", "foxes/core/algorithm.py:find_chunk_in_store")])
p("C23", "Rule-based turbine models change exactly what their rule covers",
  "Models that set, scale, limit or look up turbine quantities by rule change the announced quantities of exactly the turbines and states their rule and selection cover, to the value the rule gives, independent of the order of turbines and states and of earlier evaluations, and leave everything else unchanged.",
  ["inputs", "configurations", "histories"],
  "all tables, rules, selections, farms, states and algorithms",
  "Tests use the turbine type and the wake growth model only.",
  ["foxes/models/turbine_models/*.py"],
  [("rules", "foxes/models/turbine_models/*.py")])
p("C24", "A failed calculation leaves a usable system behind",
  "If any model fails at any point of a calculation, the failure reaches the caller as the original error, no partial result is returned as if complete, and afterwards the objects involved can be used again: once the cause is removed, the same call on the same objects and engine returns the correct results.",
  ["crash_points", "fault_sequences", "histories"],
  "failure of any model call in any chunk of farm, point, iterative and sequential calculations under any engine, followed by any retry",
  "No test lets a model fail.",
  ["foxes/core/algorithm.py", "foxes/core/engine.py", "foxes/engines/*.py", "foxes/algorithms/*"],
  [("running state", "foxes/core/algorithm.py:calc_farm"), ("engine hand over", "foxes/engines/default.py")])
p("C25", "Rotor and partial-wake averaging is a true average over the rotor",
  "Rotor and wake evaluation points lie on the turbine's rotor disk at its own height, orientation and size, their weights sum to one, averaging a uniform field returns that field, averages of larger powers of the wind speed are never below those of smaller ones, and all averaging schemes agree for uniform wakes and converge to the same value with refinement.",
  ["inputs", "configurations"],
  "all rotor and partial-wake models, resolutions, diameters, heights, orientations and fields",
  "Tests compare two schemes on one farm with a tolerance.",
  ["foxes/models/rotor_models/*.py", "foxes/models/partial_wakes/*.py", "foxes/core/rotor_model.py", "foxes/core/partial_wakes_model.py"],
  [("rotor points", "foxes/core/rotor_model.py"), ("partial wakes", "foxes/models/partial_wakes/*.py")])
p("C26", "Turbine types return their tabulated power and thrust",
  "A turbine type gives, at each tabulated wind speed, the tabulated power and thrust, between them the interpolated values, outside the tabulated range none or the documented behaviour; density and yaw corrections enter through the equivalent wind speed only, only selected turbines and states are touched, and the reported wind speeds themselves are never altered.",
  ["inputs", "configurations"],
  "all curve tables, selections, wind speeds, densities and yaw angles",
  "Tests run few speeds of a few curves; in-place changes of inputs stay invisible.",
  ["foxes/models/turbine_types/*.py", "foxes/core/turbine_type.py"],
  [("curve evaluation", "foxes/models/turbine_types/*.py")])
p("C27", "Layouts contain exactly the described turbines",
  "Building a farm from a row, a grid, a ring, random placement, a table or a file yields exactly the described turbines in the described order with the described positions, names, indices, sizes and models; turbine names and indices are unique, and a layout written to a file reads back as the same layout.",
  ["inputs", "histories"],
  "all layouts, file formats, column mappings and sequences of additions",
  "Tests use one csv layout and rows.",
  ["foxes/input/farm_layout/*.py", "foxes/core/wind_farm.py", "foxes/core/turbine.py", "foxes/output/farm_layout.py"],
  [("layout functions", "foxes/input/farm_layout/*.py"), ("registration", "foxes/core/wind_farm.py:add_turbine")])
p("C28", "Wind roses and slices show exactly the calculated data",
  "A wind rose counts every state in exactly one direction sector and value class, so that its frequencies add up to the total weight, with sectors wrapping across north; flow slices and point outputs show at each grid node the value that the point calculation gives there, averaged over states with their weights where requested.",
  ["inputs", "configurations"],
  "all results, numbers of sectors, classes, grids, state selections and reductions",
  "Plots are only produced, never checked.",
  ["foxes/output/rose_plot.py", "foxes/output/grids.py", "foxes/output/slice_data.py", "foxes/output/calc_points.py"],
  [("binning", "foxes/output/rose_plot.py"), ("slices", "foxes/output/slice_data.py")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
