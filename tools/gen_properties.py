"""writes /verif/properties.jsonl (run by hand when the list changes)"""
import json, os
P = []
MODEL_Q = ("For every feasible point of every model instance that the package builds: all module combinations, all valid "
           "parameter values (policy switches on and off), any region set, horizon and time step, every period and region.")
def add(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))
C = "mimosa/components/"
def model(id, title, statement, files, mech, why, observe=None, state=()):
    add(id, title, statement, ["inputs", "configurations"], MODEL_Q, why, files, mech,
        observe or ["constraints and variable bounds of the concrete model that MIMOSA(params) builds"], state)
NOTEST = "The unit tests build no model at all: no test evaluates a single constraint, so no configuration, period or region is covered. "

add("C01", "Validated configuration values",
    "A parameter set is accepted only if every value has its declared type, lies within its declared bounds, is one of its declared options, or is convertible to its declared unit; the accepted value is the user's value converted to that type, and a parameter the user leaves out takes its declared default. Any other value is rejected with an error naming the problem, never silently clipped, replaced or passed through. Switching a parameter off (false) is possible exactly for the parameters declared to allow it.",
    ["inputs"], "All user values (numbers including NaN and infinities, strings, booleans, lists, dictionaries) for every declared parameter kind, bounds and option list, and for every parameter of the shipped configuration template.",
    "The parser tests try some thirty hand-picked values on ad-hoc declarations; the property quantifies over all values and bounds.",
    ["mimosa/common/config/utils/parsers.py", "mimosa/common/config/parseconfig.py", "mimosa/common/config/utils/nested_dict.py", "mimosa/inputdata/config/config_default.yaml"],
    [("parser classes", "parsers.py: *Parser.parse, GeneralParser.get/check_false"), ("recursive parsing against the template", "parseconfig.py: parse_params")],
    ["check_params / load_params / MIMOSA(params).params"])
add("C02", "Unknown configuration keys are rejected",
    "A user configuration is accepted only if every key path in it exists in the configuration template; any extra, misspelled or misplaced key at any nesting depth raises an error instead of being ignored. A configuration containing only known keys is never rejected for its keys, and the contents of free-form dictionary parameters are not treated as keys.",
    ["inputs"], "All nested user dictionaries against the shipped template, at every depth.",
    "No test passes an unknown key.", ["mimosa/common/config/parseconfig.py", "mimosa/common/config/utils/nested_dict.py"],
    [("obsolete key check", "parseconfig.py: check_obsolete_params, create_leaf_criterium; nested_dict.py: flatten")], ["check_params raising"])
add("C03", "References between parameters are fully substituted",
    "When the model is built, every reference in braces to another parameter inside a text value is replaced by that parameter's value, for every reference in the text and at every nesting depth including dictionary parameters. Text in braces that names no parameter and values without references stay exactly as given.",
    ["inputs", "configurations"], "All parameter trees and all texts with zero, one or several references, to top-level and nested parameters of any value type.",
    "No test covers references; only the shipped defaults (one single-reference pattern) are exercised by use.", ["mimosa/common/config/parseconfig.py"],
    [("reference substitution", "parseconfig.py: parse_param_values")], ["MIMOSA(params).params"])
add("C04", "Quantities with units are converted exactly",
    "A quantity given as text, or as a value plus unit, becomes the same physical quantity in the model's unit: the magnitude is multiplied by the exact ratio of the two units, the model's default-unit aliases stand for their configured units (as a unit in brackets, also inside compound units), and arrays are converted element by element. A quantity that is switched off stays switched off, and a unit of another dimension raises an error.",
    ["inputs"], "All magnitudes, all spellings of compatible units, all default-unit aliases (also inside compound units).",
    "The tests convert a few fixed quantities; the property quantifies over magnitudes and unit expressions.", ["mimosa/common/units.py", "mimosa/inputdata/config/default_units.yaml", "mimosa/inputdata/config/extra_units.txt"],
    [("conversion", "units.py: Quantity.__call__, _parse_default_units, _custom_replace, unit")], ["values of the concrete model's parameters", "quant(...)"])
add("C05", "Every configured value reaches its model parameter",
    "Each model parameter that declares a source in the configuration, the regional tables or the scenario data takes exactly the value found at that source for that period and region, converted to the declared unit when the source has a unit. A user-supplied override by parameter name takes precedence over every other source, and the combined-damages option replaces all damage coefficients by those of the combined damage function for the chosen quantile and adaptation setting, with the sea-level part set to zero.",
    ["inputs", "configurations"], "All configurations, all declared parameters, all periods and regions.",
    "No test instantiates the model.", ["mimosa/concrete_model/instantiate_params.py", "mimosa/components"],
    [("parameter mapping from declarations", "instantiate_params.py: _set_instance_data_main"), ("combined damages", "instantiate_params.py: _set_instance_data_coacch"), ("declared sources", "doc= of every Param in mimosa/components")],
    ["instance data handed to the abstract model; parameter values of the concrete model"])
add("C06", "The time grid covers the requested horizon",
    "The model's periods are numbered 0..N with period t in year start + t*step, N being the smallest number of steps that reaches the requested end year (no period is missing and none lies a full step or more beyond it). The exported final period is N, and every period has data for every region.",
    ["inputs", "configurations"], "All start and end years and all (also fractional and non-dividing) time steps.",
    "No test instantiates the model; the default grid alone is used by hand.", ["mimosa/concrete_model/instantiate_params.py"],
    [("grid computation", "instantiate_params.py: _set_instance_data_main")], ["m.t, m.year, m.tf, m.beginyear, m.dt of the concrete model"])
add("C07", "Scenario data are faithful to the input files",
    "Population, GDP and emissions in every model year are those of the selected scenario, model and region converted to the model's unit, through a smooth interpolation that reproduces the file's value in every year of the file, and after the last file year by letting the final growth per year fade linearly to zero fifty years after 2100 and stay there. What one model run has read never changes what another run gets: different scenarios, models, regions and files stay separate. A selection that does not match exactly one row of the file raises an error.",
    ["inputs", "histories"], "All years, regions, scenarios and input files, all series values, and all sequences of model constructions in one process.",
    "No test reads the data files or builds two models.", ["mimosa/common/data/datastore.py", "mimosa/common/data/utils.py"],
    [("selection and cache", "datastore.py: _select_database, _get_cached_data_from_database"), ("extrapolation", "utils.py: extrapolate"), ("interpolation", "datastore.py: _get_data, interp_data")],
    ["DataStore.interp_data; baseline parameters of the concrete model"], [("DataStore.cached_data", "class-level cache shared by all runs", "datastore.py")])
add("C08", "Regional parameters: override first, table second",
    "A regional parameter takes the value the user gave for that region, category and name if there is one, and otherwise the value for that region in the category's table, as a number when it is numeric and as text otherwise. When the table uses another region definition, each model region gets the mean of the mapped table regions for numeric columns and the first value for text columns. A missing region mapping, region or column raises an error instead of yielding a default.",
    ["inputs", "configurations"], "All regional overrides (also zero and text), tables, categories, parameter names and region mappings.",
    "No test reads regional tables.", ["mimosa/common/regional_params/main.py", "mimosa/common/regional_params/region_mappers.py", "mimosa/common/regional_params/regional_param_container.py"],
    [("override lookup", "main.py: get, getregional"), ("table lookup", "regional_param_container.py: get"), ("mapping", "region_mappers.py: map_regions")], ["RegionalParamStore.get; regional parameters of the concrete model"])

model("M01", "Emission accounting",
    "In every feasible solution regional emissions are baseline emissions times one minus relative abatement (unabated in the first period), emission reductions are baseline minus actual emissions, and global emissions are the sum over regions. Cumulative emissions start at zero and grow each period by the step length times either the trapezoidal mean or the current value of global emissions, as configured, and relative cumulative emissions are their share of cumulative baseline emissions (one at the start). Relative abatement lies between 0 and 2.5, cumulative emissions are non-negative, and the model restricts these quantities in no other way.",
    [C + "emissions.py"], [("emission constraints", "emissions.py: _get_emissions_constraints")], NOTEST, state=[("cumulative_emissions", "cumulative global emissions", "emissions.py")])
model("M02", "Baseline emissions",
    "Baseline emissions are either the scenario's emissions or, if so configured, the scenario's carbon intensity (emissions per GDP) times net GDP, in every period and region. Cumulative baseline emissions are the trapezoidal integral over the model years of the scenario's emissions from the start to that period, per region and summed over regions for the global value.",
    [C + "emissions.py"], [("baseline", "emissions.py: _set_baseline_emissions, baseline_emissions constraint")], NOTEST)
model("M03", "Temperature is linear in cumulative emissions",
    "In every feasible solution the temperature in every period equals the initial temperature plus the climate response factor times cumulative emissions in that same period, with the initial temperature at the start. No other relation or bound restricts temperature apart from the configured temperature target.",
    [C + "emissions.py"], [("temperature", "emissions.py: _get_temperature_constraints")], NOTEST)
model("M04", "Climate policy targets bind when and only when configured",
    "If a carbon budget is set, cumulative emissions do not exceed it in any period from 2100 on, and if a temperature target is set, temperature does not exceed it in any period from 2100 on; before 2100 or when switched off they impose nothing. If a budget is set and positive emissions after the budget year are forbidden, global emissions are at most zero from 2100 on, and if so configured regional emissions do not increase in any period whose predecessor lies after 2100.",
    [C + "emissions.py"], [("targets", "emissions.py: temperature_target, carbon_budget, net_zero_after_2100, non_increasing_emissions_after_2100")], NOTEST)
model("M05", "Inertia and minimum emission levels",
    "When an inertia limit is set, emissions change from one period to the next by no less than step length times the limit times initial baseline emissions, of the region for the regional limit and of the world for the global one. When a minimum level is set, regional or global emissions are never below it in any period. A limit that is switched off imposes nothing, and a limit set to zero is a limit.",
    [C + "emissions.py"], [("limits", "emissions.py: global_inertia, regional_inertia, global_min_level, regional_min_level")], NOTEST)
model("M06", "Sea-level rise dynamics",
    "In every feasible solution each sea-level component (thermal expansion, glaciers, Greenland) starts at its documented initial level and evolves by its documented recurrence from its own level and the temperature of the previous period, for any step length. Total sea-level rise is the sum of the three, all four are non-negative, and nothing else restricts them.",
    [C + "sealevelrise.py"], [("recurrences", "sealevelrise.py: slr_thermal_expansion(_init), slr_gsic, slr_gis")], NOTEST)
model("M07", "Damage functions",
    "With damages enabled, total damages are temperature damages plus sea-level damages, each being the scale factor times the region's damage function (linear, quadratic or logistic, in percent, scaled by the quantile factor) minus its value at the start (temperature relative to 0.6 degrees above pre-industrial), so that they vanish in the first period. Sea-level damages stay between -0.5 and 0.7 of GDP; heat mortality per age group is quadratic in temperature with the region's coefficients and its cost for the oldest group is deaths times population times the statistical value. Without damages, damages are zero in every period and region.",
    [C + "damages/coacch.py", C + "damages/nodamage.py"], [("damage functions", "coacch.py: functional_form, damage_fct, logistic"), ("mortality", "coacch.py: get_constraints")], NOTEST)
model("M08", "Carbon price follows the marginal abatement cost curve",
    "In every feasible solution the carbon price equals the learning factor times the regional scaling factor times gamma times relative abatement to the power beta, is zero in the first period and lies between zero and twice gamma. The abatement cost function is the exact integral of that curve from zero.",
    [C + "mitigation.py"], [("curve", "mitigation.py: MAC, AC, carbonprice, init_carbon_price")], "Two unit tests compare the integral numerically for a handful of parameter values; no test covers the constraint, its bounds or the learning and regional factors in the model.")
model("M09", "Mitigation cost accounting",
    "In every feasible solution the area under the abatement curve is the abatement cost times baseline emissions, mitigation costs are that area plus the traded cost balance, relative mitigation costs are mitigation costs over gross GDP and never below the configured minimum (zero in the first period), and global relative costs are the ratio of the regional sums. The reported reduction per unit cost and cost per unit reduction are ratios of global reduction and global cost with the smoothed denominator, from the second period on.",
    [C + "mitigation.py"], [("costs", "mitigation.py: _get_mac_constraints")], NOTEST)
model("M10", "Technological learning",
    "In every feasible solution the learning-by-doing factor is the smoothed value of one plus cumulative mitigation (cumulative baseline minus cumulative emissions) over its scaling, raised to the base-2 logarithm of the progress ratio; the learning-over-time factor is one over one plus the learning rate to the power of the period number; their product is the learning factor of that same period.",
    [C + "mitigation.py"], [("learning", "mitigation.py: _get_learning_constraints")], NOTEST)
model("M11", "Emission trading conserves money and balances permits",
    "With emission trading, the traded cost balances of all regions sum to zero in every period, the traded emission balance is the cost balance over the smoothed global carbon price, paid-for reductions are own reductions plus traded reductions, and allowances are baseline emissions minus paid-for reductions, from the second period on. The global carbon price is the population-weighted mean of regional prices. With the global cost pool the cost balances sum to zero as well, paid-for reductions are a region's mitigation costs times the global reduction per unit cost, and the emission balance is paid-for minus own reductions. Without trading both balances are zero everywhere.",
    [C + "emissiontrade/emissiontrade.py", C + "emissiontrade/globalcostpool.py", C + "emissiontrade/notrade.py"], [("trade constraints", "emissiontrade.py: get_constraints")], NOTEST)
model("M12", "Financial transfers conserve money",
    "With the damage pool, transfers sum to zero over regions in every period after the first and are zero in the first, no region receives more than its own damages in money, and relative transfers times gross GDP equal transfers. Without transfers, absolute and relative transfers are zero everywhere.",
    [C + "financialtransfer/globaldamagepool.py", C + "financialtransfer/notransfer.py"], [("pool constraints", "globaldamagepool.py: get_constraints")], NOTEST)
model("M13", "Effort-sharing regimes",
    "Under equal mitigation costs, every region's relative mitigation costs are within 0.5% of one common level in every period; under equal total costs, relative mitigation costs plus damages plus relative transfers are, in every period up to and including 2100; under per-capita convergence every region's allowances are within 0.001 of its share of global emissions in every period after the first. The share moves linearly in time from the initial emission share at the start to the population share in the convergence year and stays there, is the population share throughout if convergence is immediate or already past, and the initial emission share throughout if convergence is switched off. With no regime, none of these is imposed.",
    [C + "effortsharing.py", "mimosa/common/pyomo_utils.py"], [("soft equalities", "effortsharing.py; pyomo_utils.py: RegionalSoftEqualityConstraint"), ("share", "effortsharing.py: percapconv_share_rule")], NOTEST)
model("M14", "Production, GDP identity and capital accumulation",
    "In every feasible solution gross GDP is the Cobb-Douglas product of productivity, population and smoothed capital (scenario GDP in the first period), net GDP is gross GDP less damages (unless ignored), mitigation costs and transfers, investment and consumption are the savings rate and its complement times net GDP, and capital grows from its calibrated initial value by the depreciation and investment of the current period. Productivity is calibrated so that the production function reproduces scenario GDP in every period and region at the capital stock that scenario GDP accumulates, period by period, from the same initial value, savings rate and depreciation.",
    [C + "cobbdouglas.py", "mimosa/common/economics.py"], [("economy", "cobbdouglas.py: get_constraints; economics.py: get_TFP_value, calc_dKdt, calc_GDP")], NOTEST)
model("M15", "Welfare per welfare setting",
    "Yearly welfare follows the configured setting: population-weighted sum of regional utility of consumption per capita (welfare-loss minimising), world population times utility of world consumption per capita (cost minimising), or the general inequality-aversion aggregate of regional utilities. Utility is the isoelastic function of smoothed consumption per capita with the configured elasticity (other than one), and regional utility is the quantity documented for that setting.",
    [C + "welfare/utility_fct.py", C + "welfare/welfare_loss_minimising.py", C + "welfare/cost_minimising.py", C + "welfare/inequal_aversion_general.py"], [("welfare", "welfare/*.py")], NOTEST)
model("M16", "Objective is the discounted sum",
    "The net present value starts at zero and each period adds step length times the discount factor (exponential in the configured rate and years since the start) times that period's yearly welfare, or total mitigation plus damage costs in the global-costs setting. The model maximises its final-period value for welfare and minimises it for costs, and there is exactly one objective.",
    [C + "objective/utility.py", C + "objective/globalcosts.py"], [("objective", "objective/*.py: get_constraints")], NOTEST)
add("M17", "Smooth functions approximate what they stand for",
    "For every scale, the smooth minimum is positive and above max(x, 0) by at most scale/(25 pi) for every x, increasing towards x for large x and towards zero for negative x; the smooth switch lies strictly between 0 and 1, is 1/2 at 0 and increases; the smooth maximum is the mirrored smooth minimum below its cap. They give the same value for plain numbers, arrays and model expressions.",
    ["inputs"], "All real arguments, scales and caps.", "The tests sample a few arguments.", ["mimosa/common/pyomo_utils.py"],
    [("smooth functions", "pyomo_utils.py: soft_switch, soft_min, soft_max, atan, exp")], ["soft_min / soft_max / soft_switch values"])
add("M18", "The model consists of exactly the selected modules",
    "For every combination of module choices the built model contains every constraint of every selected component exactly once, under a distinct name, for all periods and regions it is declared for, and none of the components not selected. Combinations in scope build without error, and an unknown module choice raises an error.",
    ["configurations"], "All module combinations, including unknown module names.", NOTEST, ["mimosa/abstract_model.py", "mimosa/common/pyomo_utils.py"],
    [("composition", "abstract_model.py: create_abstract_model"), ("naming", "pyomo_utils.py: add_constraint, to_pyomo_constraint")], ["component lists of the abstract and the concrete model"])
add("S01", "Simulation mode pins exactly what is asked",
    "In simulation mode each listed variable is pinned in every period (and region) to within 0.001 of the supplied path, interpolated between the supplied years, for paths given inline or as a file, and each listed constraint, and no other, is deactivated. Without simulation mode nothing is pinned or deactivated, whatever the other simulation settings say; naming a variable or constraint that does not exist raises an error.",
    ["inputs", "configurations"], "All lists of pinned variables and deactivated constraints, regional and global, and all supplied paths.", "No test uses simulation mode.",
    ["mimosa/concrete_model/simulation_mode", "mimosa/mimosa.py"], [("pins", "set_constraints.py"), ("deactivation", "deactivate_constraints.py"), ("switch", "mimosa.py: create_instance")], ["active constraints of the concrete model"])
add("S02", "A failed solve is never reported as success",
    "Solving returns normally only if the solver reported an OK status; any other status, from the local or the remote solver, raises an error and the stored status is that of the latest attempt. Results of aggregated variables are restored after solving and before anything is reported, also when the solve failed, and every model with several regions is preprocessed and restored consistently.",
    ["fault_sequences", "histories"], "All solver statuses and termination conditions, local and remote, repeated solves.", "No solver exists in the tests; no test calls solve.",
    ["mimosa/mimosa.py"], [("status check", "mimosa.py: solve, preprocessing, postprocessing")], ["MIMOSA.solve, MIMOSA.status"])
add("S03", "Exports contain every result, correctly labelled",
    "The saved table has one row per model variable and region (one row labelled Global for global variables) and per period-and-region parameter, each with its name, unit and its values in period order under the right year columns, at six significant digits. The parameter file next to it holds the run's parameters, and the files are named by the given name, folder and, if requested, a suffix determined by the parameters.",
    ["inputs", "histories"], "All models, variable values, units, grids and file names.", "No test saves results.",
    ["mimosa/export/save.py", "mimosa/common/pyomo_utils.py", "mimosa/mimosa.py"], [("rows", "save.py: save_output, var_to_row, rows_to_dataframe; pyomo_utils.py: UsefulVar, get_unit")], ["the CSV and JSON files written by MIMOSA.save"])
add("S04", "Runs do not interfere with each other or with the caller",
    "Building, configuring or saving a model changes neither the caller's parameter dictionary nor any previously built model, and two models built from equal parameters in one process are equal whatever was built in between. Loading default parameters gives the same values every time.",
    ["histories", "inputs"], "All sequences of parameter loads, model constructions and saves in one process, with any parameters.", "Each test runs one call in isolation; no test builds two models.",
    ["mimosa/mimosa.py", "mimosa/common/config/parseconfig.py", "mimosa/common/data/datastore.py", "mimosa/concrete_model/instantiate_params.py"],
    [("copies versus shared state", "parse_params, parse_param_values, DataStore class attributes")], ["caller's dict before/after; repeated builds"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
