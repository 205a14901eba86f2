import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Accepted configurations are complete, typed and within their declared domain",
"Every configuration the configuration loader accepts comes back with a value for every declared parameter and for nothing else. Each value is the user's own value converted to the declared type when the user gave one and the documented default otherwise, and it lies within the declared bounds, allowed values and unit dimension (or is 'false' where the declaration permits switching it off). This holds for any partial, nested combination of user settings, whatever order they are written in.",
["configurations","inputs"],"all partial user configurations over every declared parameter and every spelling of its values",
"The parser unit tests call single parsers on a handful of hand-picked values; no test loads a combined user configuration against the full declaration file.",
["mimosa/common/config/parseconfig.py","mimosa/common/config/utils/parsers.py","mimosa/inputdata/config/config_default.yaml"],
[("parsing of every declared leaf","mimosa/common/config/parseconfig.py parse_params"),("typed parsers","mimosa/common/config/utils/parsers.py"),("nested lookup","mimosa/common/config/utils/nested_dict.py")],
["return value of check_params / load_params","MIMOSA.params"])
p("C02","Undeclared or out-of-domain settings are always rejected",
"A configuration containing a parameter that is not declared, at any nesting depth, or a value that does not fit its declaration (wrong type, outside the bounds, not an allowed value, wrong physical dimension, not a number, incomplete data source) is rejected with an error. It is never silently ignored, clipped or replaced by a default, no matter which other valid settings accompany it.",
["configurations","inputs"],"all single- and multi-fault corruptions of valid configurations",
"Tests try a few bad values on isolated parsers; the space of misspelt keys and bad values at every leaf of the real declaration is not sampled.",
["mimosa/common/config/parseconfig.py","mimosa/common/config/utils/parsers.py"],
[("unknown-key detection","mimosa/common/config/parseconfig.py check_obsolete_params"),("bounds / enum / unit checks","mimosa/common/config/utils/parsers.py")],
["exception raised by check_params and by constructing MIMOSA"])
p("C03","Configuration processing is pure, repeatable and idempotent",
"Loading a configuration never modifies the dictionary the caller passed in and never depends on what was loaded before in the same process. Loading the same configuration again gives an equal result, loading an already loaded configuration gives it back unchanged, and changing a loaded configuration afterwards does not leak into the defaults seen by later loads.",
["histories","configurations"],"all sequences of loads, edits of loaded results and model constructions",
"Purity and absence of shared state are statements over call histories; the tests make single calls.",
["mimosa/common/config/parseconfig.py","mimosa/common/config/utils/parsers.py","mimosa/common/utils.py"],
[("defaults re-read for every load","mimosa/common/config/parseconfig.py load_default_yaml"),("fresh containers","mimosa/common/config/utils/parsers.py ListParser/DictParser")],
["check_params, parse_param_values, MIMOSA.params"])
p("C04","Cross-references between settings are fully resolved to the final values",
"A text setting containing references to other settings in braces, any number of them and mixed with literal text, is delivered with every reference replaced by the text of the referred setting's final value (user value or default). Braces that refer to no declared setting are left as written, and no other setting changes.",
["configurations","inputs"],"all text settings with any number of references to scalar settings at any depth, and any surrounding literal text",
"No test exercises reference substitution at all.",
["mimosa/common/config/parseconfig.py"],
[("reference substitution","mimosa/common/config/parseconfig.py parse_param_values")],
["MIMOSA.params","rows selected from the input database"])
p("C05","Quantities mean the same thing in whatever compatible unit they are written",
"Converting a quantity to a model unit multiplies it by the physically correct factor (SI prefixes, tonnes of CO2, years, people, temperature differences, and currency with 1 USD2010 = 1.11 USD2005), so that spelling the same value in any compatible unit gives the same model. Conversions are linear, invert each other and compose, and incompatible units raise an error instead of a number.",
["inputs","configurations"],"all magnitudes and all compatible unit spellings for every quantity setting",
"Unit tests check a few fixed strings; linearity, round-trips and unit invariance of the built model quantify over all magnitudes and spellings.",
["mimosa/common/units.py","mimosa/inputdata/config/default_units.yaml","mimosa/inputdata/config/extra_units.txt"],
[("quantity conversion","mimosa/common/units.py Quantity.__call__"),("parsing of quantities in settings","mimosa/common/config/utils/parsers.py QuantityParser"),("conversion when parameters are set","mimosa/concrete_model/instantiate_params.py")],
["quant(...)","parameter values of the concrete model"])
p("C06","Input time series are read, unit-converted, interpolated and extended faithfully",
"The population, GDP and emission series used by a model are those of the configured model, scenario, variable and region in the configured file: they pass through the (unit-converted) data points, follow the cubic interpolation between them and, after the last data year, continue with the documented trend that levels off linearly over 50 years and then stays constant. A missing or ambiguous row is an error, never a guess. What is returned for one region, variable or scenario does not depend on which others were read before.",
["inputs","histories","configurations"],"all well-formed input databases, scenario/region/variable selections, horizons and time steps, and all orders in which they are requested in one process",
"No test constructs the data store; interpolation and caching are only meaningful over all years and all request orders.",
["mimosa/common/data/datastore.py","mimosa/common/data/utils.py"],
[("row selection and caching","mimosa/common/data/datastore.py _get_cached_data_from_database"),("interpolation","mimosa/common/data/datastore.py _get_data / interp_data"),("extension beyond data","mimosa/common/data/utils.py extrapolate")],
["DataStore.interp_data","population, baseline_GDP and baseline_emissions of the concrete model"],
[("class-level caches","data bases and selected rows shared by all instances in the process","DataStore.databases, DataStore.cached_data")])
p("C07","Regional parameters come from the right region, file and override",
"Every regional parameter of a model equals the value given for that region in the configured parameter file; when the file uses another region definition, it is the value of the matching region(s) according to the configured conversion table, averaged if several match. A value set for one region in the configuration replaces exactly that parameter of exactly that region and nothing else, and a parameter or region that cannot be found is an error.",
["inputs","configurations"],"all parameter files, conversion tables, region subsets and override patterns",
"No test touches the regional parameter store or the region mapping.",
["mimosa/common/regional_params/main.py","mimosa/common/regional_params/region_mappers.py","mimosa/common/regional_params/regional_param_container.py"],
[("override before file","mimosa/common/regional_params/main.py getregional"),("mapping","mimosa/common/regional_params/region_mappers.py map_regions"),("lookup","mimosa/common/regional_params/regional_param_container.py get")],
["RegionalParamStore.get","indexed parameters of the concrete model"])
p("C08","The built model has the configured horizon and parameter values",
"The model covers exactly the years start, start+step, ... up to the first one that reaches the configured end year, for exactly the configured regions. Every scalar setting that feeds the equations arrives there under its own role with its configured value in model units, and explicitly supplied custom parameter values override the settings and nothing else.",
["configurations"],"all start years, end years, (fractional) time steps, region sets and parameter settings",
"No passing test instantiates a model; the wiring of each of ~30 settings needs non-default values of each to be distinguished.",
["mimosa/concrete_model/instantiate_params.py","mimosa/abstract_model.py"],
[("time axis","mimosa/concrete_model/instantiate_params.py _set_instance_data_main"),("settings to parameters","mimosa/concrete_model/instantiate_params.py _set_instance_data_main")],
["MIMOSA.concrete_model sets and parameters"])
p("C09","Emissions are conserved from regional abatement to the cumulative global total",
"In every solution the model admits, regional emissions equal the baseline (the carbon intensity times net GDP, or the exogenous baseline, as configured) times one minus the relative abatement and start at the exogenous baseline; avoided emissions are baseline minus emissions; global emissions are the sum over all regions; and cumulative emissions start at zero and grow each step by the configured integral of global emissions. Conversely, every trajectory satisfying these relations is admitted and any trajectory deviating from one of them in any region or year is excluded.",
["configurations","histories"],"all configurations and all abatement policies over time and regions",
"No existing test builds the model equations; the relations must hold at every time step and region for every policy.",
["mimosa/components/emissions.py"],
[("emission equations","mimosa/components/emissions.py _get_emissions_constraints"),("cumulative baseline","mimosa/components/emissions.py _set_baseline_emissions")],
["active constraints of the concrete model at assigned variable values"])
p("C10","Temperature and sea level follow the documented climate response",
"In every admitted solution the temperature is the configured initial temperature plus the configured response times cumulative emissions, in every year. Thermal expansion, glacier and Greenland contributions follow their documented recurrences from their documented initial values, driven by the previous step's temperature and scaled with the step length, and total sea-level rise is their sum; no other trajectory is admitted.",
["configurations","histories"],"all emission histories, initial temperatures, responses and time steps",
"Not covered by any existing test; a recurrence error shows only over several steps and non-default step lengths.",
["mimosa/components/emissions.py","mimosa/components/sealevelrise.py"],
[("temperature","mimosa/components/emissions.py _get_temperature_constraints"),("sea-level recurrences","mimosa/components/sealevelrise.py")],
["temperature, total_SLR and its components in the concrete model"])
p("C11","Every configured limit on emissions and temperature is enforced, and only then",
"A carbon budget bounds cumulative emissions and a temperature target bounds temperature in every model year from 2100 on, inertia limits bound the fall of global and regional emissions per step in proportion to step length and initial emissions, minimum levels bound global and regional emissions, emissions may not grow after 2100 when so configured, global emissions are not positive from 2100 when a budget and that flag are set, and cumulative emissions never go below zero. A trajectory breaking a configured limit at any single year or region is excluded. A limit that is switched off, or years outside its window, excludes nothing.",
["configurations","histories"],"all limit values (including off), horizons and trajectories, with the limit broken at any one instance or met everywhere",
"No test evaluates the constraints; each limit has its own time window and must hold at every instance.",
["mimosa/components/emissions.py"],
[("limits","mimosa/components/emissions.py _get_inertia_and_budget_constraints, _get_temperature_constraints")],
["feasibility verdict of the concrete model for assigned trajectories"])
p("C12","Mitigation costs are the area under the regional, learning-adjusted cost curve",
"In every admitted solution the regional carbon price is the learning factor times the regional calibration factor times gamma times abatement to the power beta, is zero in the first year and stays between zero and twice gamma; mitigation costs are the exact integral of that curve times baseline emissions plus the net payment for traded reductions, never below the configured share of GDP. The relative, global and per-unit cost indicators are the documented ratios of these, and the learning factor is the documented product of learning by doing (global cumulative avoided emissions) and learning over time.",
["configurations","histories"],"all abatement trajectories, curve parameters, learning rates and regions",
"Unit tests evaluate two helper functions at a few points; nothing checks the costs inside the model, nor learning along a history.",
["mimosa/components/mitigation.py"],
[("cost curve","mimosa/components/mitigation.py _get_mac_constraints, MAC, AC"),("learning","mimosa/components/mitigation.py _get_learning_constraints")],
["carbonprice, mitigation_costs, learning_factor and cost indicators in the concrete model"])
p("C13","Damages follow the configured regional functions of temperature and sea level",
"In every admitted solution regional damages are the scale factor times the temperature-related plus sea-level-related damage function of the configured form, quantile and adaptation choice, each measured relative to the first model year so that damages start at zero; the combined option uses only the combined function, and the no-damage option gives zero damages. Mortality indicators are the documented quadratics of temperature, and damages reduce net GDP unless damages are configured to be ignored.",
["configurations","histories"],"all damage configurations, regions (all functional forms) and climate trajectories",
"No test evaluates a damage function in a model; the 26 regions mix three functional forms with eleven quantiles.",
["mimosa/components/damages/coacch.py","mimosa/components/damages/nodamage.py","mimosa/concrete_model/instantiate_params.py"],
[("damage functions","mimosa/components/damages/coacch.py damage_fct, functional_form, logistic"),("combined coefficients","mimosa/concrete_model/instantiate_params.py _set_instance_data_coacch")],
["damage_costs and its components in the concrete model"])
p("C14","The economy follows Cobb-Douglas production calibrated on the baseline GDP",
"In every admitted solution gross GDP is productivity times labour and capital in Cobb-Douglas form starting from baseline GDP, net GDP is gross GDP minus damages, mitigation costs and transfers, net GDP splits exactly into investment (savings rate) and consumption, and capital follows depreciation and investment from the configured initial stock. Productivity is calibrated in every year and region as baseline GDP over the Cobb-Douglas output of baseline population and of the capital that the baseline's own savings accumulate, so that it depends on the baseline only, never on the policy.",
["configurations","histories"],"all baselines, production parameters, time steps and cost/damage histories",
"The calibration is a property over whole trajectories and parameter values; existing tests never build the economy.",
["mimosa/components/cobbdouglas.py","mimosa/common/economics.py"],
[("production and accumulation","mimosa/components/cobbdouglas.py get_constraints"),("productivity calibration","mimosa/common/economics.py get_TFP_value")],
["GDP_gross, GDP_net, investments, consumption, capital_stock in the concrete model"])
p("C15","Emission trading redistributes reductions and money, creating and losing none",
"With trading, payments between regions for emission reductions sum to zero every year, traded reductions are the payments valued at the population-weighted global carbon price, reductions a region pays for are its own plus the imported ones, and its allowances are its baseline minus those; without trading no region pays for or is credited with another's reductions. With a global cost pool the regions' costs add up to the total area under all cost curves each year and each region is credited with reductions in proportion to what it pays; configured minimum and maximum payment levels bound each region's costs relative to the area under its own curve, and nothing else restricts the distribution.",
["configurations","histories"],"all trading modules, zero-sum and non-zero-sum payment patterns, years and regions",
"No existing test builds a model with trading; zero-sum must hold per year for every distribution.",
["mimosa/components/emissiontrade/emissiontrade.py","mimosa/components/emissiontrade/globalcostpool.py","mimosa/components/emissiontrade/notrade.py"],
[("trading equations","mimosa/components/emissiontrade/emissiontrade.py get_constraints"),("cost pool","mimosa/components/emissiontrade/globalcostpool.py get_constraints")],
["import/export balances, allowances and mitigation costs in the concrete model"])
p("C16","Damage transfers are zero-sum and never exceed a region's own damages",
"With the global damage pool, transfers are zero in the first year, sum to zero over regions in every later year, and a region never receives more than its own damages; the reported relative transfer is the transfer divided by gross GDP. Any transfer pattern meeting these rules is admitted, any pattern breaking one of them in one year or region is excluded, and without the pool all transfers are zero.",
["configurations","histories"],"all transfer patterns over years and regions",
"No existing test builds a model with transfers.",
["mimosa/components/financialtransfer/globaldamagepool.py","mimosa/components/financialtransfer/notransfer.py"],
[("pool rules","mimosa/components/financialtransfer/globaldamagepool.py get_constraints")],
["financial_transfer and rel_financial_transfer in the concrete model"])
p("C17","Each effort-sharing regime imposes its own sharing rule and nothing else",
"Equal mitigation costs forces all regions' relative mitigation costs to a common level in every year and equal total costs forces mitigation plus damages plus transfers to a common level in every year up to 2100, both within 0.5%; without a regime no such equality is imposed. Per-capita convergence gives every region the share of global emissions that moves linearly from its initial emission share to its current population share in the convergence year and stays there afterwards (always the initial share if convergence is off). Shares add up to one and stay within [0,1] in every year.",
["configurations","histories"],"all regimes, convergence years (before, inside, after the horizon, off), baselines and allocations",
"No existing test selects a regime; the window and tolerance need allocations just inside and just outside of it at every year.",
["mimosa/components/effortsharing.py","mimosa/common/pyomo_utils.py"],
[("sharing rules","mimosa/components/effortsharing.py"),("soft equality","mimosa/common/pyomo_utils.py RegionalSoftEqualityConstraint")],
["feasibility of allocations, percapconv_share in the concrete model"])
p("C18","Welfare is the configured aggregation of consumption and population",
"In every admitted solution utility and yearly welfare equal the documented formula of the selected welfare module: population-weighted constant-elasticity utility of consumption per capita, utility of globally pooled consumption, or the two-parameter inequality-aversion form. Consequently welfare is symmetric in regions, strictly increases with any region's consumption, under the pooled module ignores redistribution, and under the others rises when consumption is moved from a richer to an equally populous poorer region.",
["configurations","inputs"],"all consumption and population distributions and elasticities",
"No existing test evaluates welfare; symmetry, monotonicity and the transfer principle are relations between pairs of inputs.",
["mimosa/components/welfare/welfare_loss_minimising.py","mimosa/components/welfare/cost_minimising.py","mimosa/components/welfare/inequal_aversion_general.py","mimosa/components/welfare/utility_fct.py"],
[("welfare formulas","mimosa/components/welfare/")],
["utility and yearly_welfare in the concrete model"])
p("C19","The objective is the correctly discounted sum, optimised in the right direction",
"The optimised quantity is the sum over all steps after the first of step length times the exponential pure-time-preference discount factor since the first year times that year's welfare (maximised) or, for the cost objective, total mitigation plus damage costs (minimised). It starts at zero, its running value satisfies the recurrence at every step, and only its final value is optimised.",
["configurations","histories"],"all welfare and cost streams, discount rates, step lengths and horizons",
"No existing test evaluates the objective; an index or sign error shows only over a stream with several steps.",
["mimosa/components/objective/utility.py","mimosa/components/objective/globalcosts.py"],
[("discounted sum","mimosa/components/objective/utility.py, mimosa/components/objective/globalcosts.py")],
["objective expression, sense and NPV in the concrete model"])
p("C20","Every combination of model modules builds one closed, consistent model",
"Each selectable combination of damage, trading, transfer, welfare, objective and applicable effort-sharing options yields a model without error, with one objective and with the same named outputs whatever the order of regions or the unrelated options. For a given policy (abatement, payments, transfers) the model's equations determine every reported output uniquely (traded quantities and unit-cost ratios from the second year on), and its no-policy trajectory is admitted when neither limits nor a sharing regime are configured.",
["configurations"],"the full cross product of module choices with varied horizons and region sets",
"Existing model tests need a solver that is not part of the stable tests and cover two module combinations.",
["mimosa/abstract_model.py","mimosa/components"],
[("module selection","mimosa/abstract_model.py create_abstract_model")],
["MIMOSA constructor, concrete model"])
p("C21","Simulation mode pins exactly the given variables, drops only the named rules",
"In simulation mode each listed variable must stay within the fixed tolerance of 0.001 of the supplied data (given as table or as file) at every model year and region: exactly the data value in data years, a smooth interpolation between them and the levelled-off continuation afterwards. Exactly the named constraints are switched off and all others remain in force; a name that belongs to no rule, variable or region is refused. With simulation mode off, the listed variables and constraints have no effect.",
["configurations","histories"],"all sets of pinned variables, data tables and files, and deactivated constraints",
"No existing passing test enables simulation mode.",
["mimosa/concrete_model/simulation_mode/set_constraints.py","mimosa/concrete_model/simulation_mode/deactivate_constraints.py","mimosa/concrete_model/simulation_mode/utils.py"],
[("pinning","mimosa/concrete_model/simulation_mode/set_constraints.py"),("deactivation","mimosa/concrete_model/simulation_mode/deactivate_constraints.py")],
["feasibility verdict and active constraints of the concrete model"])
p("C22","Saved output is a faithful, complete copy of the model's values and settings",
"Saving writes one row per model variable and per time-and-region parameter, for every region (or once for global quantities), whose cells equal the model's values at every model year to the six significant digits written, under the right variable, region, unit and year. The settings saved beside it, when loaded again, are the settings of the run and rebuild the same model, and the files land in the requested folder and name, replacing only those.",
["configurations","histories"],"all configurations and all variable values, file names and folders, including repeated saves",
"No existing test saves output.",
["mimosa/export/save.py","mimosa/common/pyomo_utils.py","mimosa/mimosa.py"],
[("rows","mimosa/export/save.py var_to_row, rows_to_dataframe"),("units","mimosa/common/pyomo_utils.py get_unit")],
["CSV and params.json files written by MIMOSA.save"])
p("C23","Solving reports failure honestly and returns values fitting the full model",
"The reductions applied before solving lose nothing: a point admitted by the full model is admitted by the reduced one with the same objective, and whatever values the solver returns for the reduced problem, after a solve every variable of the model again satisfies the equalities that were eliminated. A solve whose solver does not finish successfully raises an error and is never reported as successful, and its status is the solver's; a later successful solve of the same model is reported as successful. The options given to a solve reach the solver in that solve and in no other, and the log states that solve's status and, if successful, its final objective value.",
["histories","fault_sequences","configurations"],"all solver outcomes and returned points, over sequences of solves, for all configurations",
"The stable tests never solve: no solver is available and solver failures are not simulated.",
["mimosa/mimosa.py"],
[("model reduction","mimosa/mimosa.py preprocessing"),("restoring eliminated variables","mimosa/mimosa.py postprocessing"),("status handling","mimosa/mimosa.py solve")],
["MIMOSA.solve, MIMOSA.status, variable values afterwards"])
p("C24","Models are independent of each other and of the order of regions",
"A model built from a configuration is the same whatever other models were built, modified, solved or saved earlier in the process and whatever the working directory, and changing one model never changes another. Listing the regions in another order changes only the order: every region keeps its own data, parameters and equations, and all global quantities stay the same.",
["histories","configurations"],"all sequences of building and modifying models in one process; all permutations of the regions",
"Independence is a statement over histories of several models in one process; the tests build none.",
["mimosa/mimosa.py","mimosa/common/data/datastore.py","mimosa/concrete_model/instantiate_params.py","mimosa/abstract_model.py"],
[("fresh abstract model per instance","mimosa/mimosa.py get_abstract_model"),("process-wide data cache","mimosa/common/data/datastore.py")],
["concrete models of several MIMOSA instances"])
p("C25","Smooth approximations stay within their error bound and preserve monotonicity",
"The smoothed lower bound at zero is strictly positive, differs from the exact maximum of its argument and zero by at most scale/(25*pi), is exact far from zero and increasing above zero; the smoothed upper bound mirrors it exactly, and the smoothed switch goes monotonically from 0 to 1 through 1/2 at zero. They scale with the scale argument and agree for plain numbers, arrays, tables and model expressions.",
["inputs"],"all arguments and scales, as numbers, arrays, series and symbolic expressions",
"Unit tests evaluate a handful of points; bounds and monotonicity quantify over the real line.",
["mimosa/common/pyomo_utils.py"],
[("smooth functions","mimosa/common/pyomo_utils.py soft_min, soft_max, soft_switch, atan, exp")],
["soft_min, soft_max, soft_switch"])
p("C26","The social-cost-of-carbon pathway has the model's own climate and damages",
"For any emission pathway the damage pathway computed for the social cost of carbon uses the same (trapezoidally) cumulated emissions, temperature, sea-level rise and regional damage functions as the optimisation model, so both report equal temperatures, sea levels and damages for equal emissions and parameters. Emissions supplied by the user are used for exactly the years and regions they are given for.",
["inputs","configurations"],"all emission pathways, parameters and regions",
"No existing test touches this code.",
["mimosa/socialcostofcarbon/scc.py","mimosa/components/sealevelrise.py","mimosa/components/damages/coacch.py"],
[("damage pathway","mimosa/socialcostofcarbon/scc.py SCC.calculate_damages")],
["SCC.calculate_damages output"])
p("C27","Declared constraints reach the model at every index, with the declared tolerance",
"Every constraint a module declares is present in the model at exactly the years and regions its declaration covers, under its declared name and description, with the declared left- and right-hand sides. An approximate equality admits exactly the values within its relative (or absolute) tolerance of the right-hand side, on both sides, wherever it is not explicitly ignored, for global as well as regional declarations.",
["inputs","configurations"],"all constraint declarations over time and region sets, tolerances and values around the tolerance boundary",
"No test constructs constraints; boundary behaviour at every index and tolerance is not sampled.",
["mimosa/common/pyomo_utils.py"],
[("constraint construction","mimosa/common/pyomo_utils.py GeneralConstraint subclasses, add_constraint")],
["constraints of a model built from declarations"])
p("C28","The generated parameter reference states what the configuration really accepts",
"The generated reference has exactly one entry per declared setting, under its groups and addressed by its full path, stating its description, type, default, whether it can be false, and its bounds, unit or allowed values as declared; the example of each entry, executed, sets exactly that setting to its default, and the example of each parser type is the declaration of a setting of that type. A mention of a model parameter in a page becomes a link to the entry of the setting that determines its value, with that setting's type, default and limits; all other text of the page stays as it is.",
["inputs","configurations"],"all declarations of settings (types, nesting, defaults, limits) and all pages mentioning them",
"No test touches the documentation hooks or the parsers' descriptions of themselves.",
["docs/scripts/mkdocs_hooks.py","mimosa/common/config/utils/parsers.py"],
[("reference and links","docs/scripts/mkdocs_hooks.py on_page_markdown, on_page_content"),("self-description","mimosa/common/config/utils/parsers.py to_markdown, to_string")],
["pages returned by the documentation hooks"])
p("C29","Added components join the model without touching the rest of it",
"A parameter that an added component declares by reference (to a setting, a column of a regional parameter file or a time series, or by a function of the settings that gives such a reference) has exactly the referred value, in model units, at every index, whatever the shape of the component and the selected modules; a reference that leads nowhere is an error. The added variables and rules are part of the model at every declared index, are bounded and skipped as declared, and leave every other set, parameter, variable, constraint and the objective as they were. Every added variable, whether indexed by time and region, by one of them or by none, appears in the saved output with its values.",
["configurations","inputs"],"all added components (references, variables of every shape, rules of every kind) and all configurations",
"No test extends the model; the extension interface is only described in the documentation.",
["mimosa/concrete_model/instantiate_params.py","mimosa/common/pyomo_utils.py","mimosa/export/save.py","docs/extending/parameters.md","docs/extending/variables_constraints.md"],
[("references of parameters","mimosa/concrete_model/instantiate_params.py _set_instance_data_main"),("declared rules","mimosa/common/pyomo_utils.py GeneralConstraint, add_constraint"),("rows of the output","mimosa/export/save.py var_to_row")],
["concrete model of a MIMOSA whose abstract model was extended","saved table"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        n=x['statement'].count('. ')+1
        assert n<=3,(x['id'],n)
        f.write(json.dumps(x)+'\n')
print(len(P))
