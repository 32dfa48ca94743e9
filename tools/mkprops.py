import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":qtext},why_tests_cant=why,anchors=a))
U="openscm/core/units.py"; T="openscm/core/time.py"; V="openscm/core/views.py"; PR="openscm/core/parameters.py"; PS="openscm/core/parameterset.py"; RG="openscm/core/regions.py"
B="openscm/scmdataframe/base.py"; F="openscm/scmdataframe/filters.py"; O="openscm/scmdataframe/offsets.py"; G="openscm/scmdataframe/parameter_type.py"; SI="openscm/scmdataframe/__init__.py"; PY="openscm/scmdataframe/pyam_compat.py"
A="openscm/adapters/__init__.py"; D="openscm/adapters/dice.py"; CI="openscm/core/__init__.py"; SC="openscm/scenarios/__init__.py"

p("C01","Unit conversion is one consistent affine map with the physical factor",
"Converting values between two compatible units multiplies and shifts them by the physically correct factor and offset (SI prefixes, times, temperatures, gas molar-mass ratios, concentrations, joint mass+gas units), for scalars and arrays alike. Converting a unit to itself is the identity, converting back inverts converting forward, and converting through any intermediate unit gives the same result as converting directly.",
["inputs"],"every pair and triple of compatible unit expressions built from the recognised masses, prefixes, gas species and aliases, times, temperatures, concentrations, energies, powers, and every numeric value",
"The tests convert a handful of fixed pairs; the unit grammar is a product of ~90 species, several spellings, prefixes and time units, and the composition law quantifies over triples of them.",
[U],[("gas table and joint unit definitions","openscm/core/units.py:_standard_gases, ScmUnitRegistry.add_standards"),("affine coefficients derived from two probe conversions","openscm/core/units.py:UnitConverter.__init__/convert_from/convert_to")],["UnitConverter(source, target).convert_from / convert_to"])
p("C02","Different substances never convert into each other without a context",
"Without a conversion context, a conversion succeeds if and only if both units have the same physical dimension and the same substance: any two different gas species (methane versus carbon and NOx versus nitrogen included), or units of different dimension, are refused with a dimensionality error, and unknown unit names with an undefined-unit error. Every recognised species is usable as a bare unit, with a mass in front, as a joint unit and in its all-uppercase spelling, all meaning the same amount.",
["inputs"],"every ordered pair of recognised species, in every spelling, with and without mass and time parts, plus arbitrary non-unit strings",
"Tests check a few forbidden pairs; silently allowing one species to convert to another is a pairwise property over the whole table (thousands of ordered pairs and spellings).",
[U],[("each base gas is its own dimension; derived gases refer to one base gas","openscm/core/units.py:_standard_gases, ScmUnitRegistry._add_gases"),("upper-case aliases and joint units","openscm/core/units.py:_add_mass_emissions_joint_version")],["UnitConverter constructor"])
p("C03","Metric contexts convert every species with exactly the tabulated factor",
"Within a metric context every species listed in the metric table converts to CO2 equivalents with exactly the factor tabulated for that species and metric, and back with its inverse, in each supported form (bare, mass, per time, mass per time) and composed with ordinary unit scaling. A species without a value in that metric yields NaN together with a warning, never a number. The methane-carbon and NOx-nitrogen contexts apply the molar-mass ratio, and using any context never changes what later conversions without it allow.",
["inputs","histories"],"every (metric, species, form, scaling) of the bundled table, and every sequence of conversions that mixes contexts and no context",
"The tests sample a few species per metric; a single mis-scaled species or a context that stays active after use is invisible to them.",
[U,"openscm/data/metric_conversions.csv"],[("metric table to transformation functions","openscm/core/units.py:ScmUnitRegistry._load_metric_conversions"),("CH4/NOx contexts","openscm/core/units.py:ScmUnitRegistry._load_contexts"),("context entered only around the probe conversions","openscm/core/units.py:UnitConverter.__init__")],["UnitConverter(source, target, context)"])
p("C04","Any supported time representation denotes the right instants",
"Time points given as integer years (of any integer type), fractional years, date strings, Python datetimes or dates, or numpy datetimes of any resolution denote the corresponding instants to the second, over the whole supported calendar range and not only the range of nanosecond timestamps. The year, month, day, hour and weekday reported for each point are those of that instant, and the result never depends on the current date.",
["inputs"],"all years 1 to 9999, all integer and float types, all orderings and lengths, all supported string formats",
"Tests use a few fixed dates; wrap-around of integer types, leap years, pre-1677 and post-2262 dates, and partial date strings are boundary inputs of a large domain.",
[T],[("dispatch on dtype and conversion to second resolution","openscm/core/time.py:_format_datetime, _parse_datetime, _float_year_to_datetime"),("accessors","openscm/core/time.py:TimePoints")],["TimePoints(...).values/years()/months()/days()/hours()/weekdays()/to_index()"])
p("C05","Equidistant grids have exactly the requested start, step and length",
"Creating time points from a start, a period length and a number of points gives exactly start plus a whole multiple of the period at every position, to the second, with as many entries as points for point series and one more (the end of the last interval) for average series.",
["inputs"],"all starts in the supported calendar, all period lengths from one second to centuries, all lengths",
"Tests check one or two grids; floating point spacing errors only appear for particular start/period/length combinations.",
[T],[("linspace over integer seconds","openscm/core/time.py:create_time_points")],["create_time_points"])
p("C06","Point series are interpolated exactly linearly and extrapolated as asked",
"Converting a point timeseries to other time points gives at each target point the value of the straight line between the two neighbouring source points; beyond the ends it holds the end value with constant extrapolation and continues the end segment with linear extrapolation. Converting onto the same points is the identity, converting onto a superset of the points and back restores the data, and conversion is linear in the values.",
["inputs"],"all strictly increasing source grids and target grids, regular or not, all values, all extrapolation modes, both conversion directions",
"The tests use a few regular grids; irregular, refined, shifted and far-future grids are unbounded.",
[T],[("interp1d on source points","openscm/core/time.py:TimeseriesConverter._calc_continuous_representation"),("extrapolation arguments","openscm/core/time.py:TimeseriesConverter._get_scipy_extrapolation_args")],["TimeseriesConverter.convert_from/convert_to"])
p("C07","Average series conversion preserves time integrals",
"Converting an average timeseries to other intervals gives for each target interval the mean of the mean-preserving piecewise linear representation of the source, so a target interval made of whole source intervals gets exactly their duration-weighted mean whatever the number of intervals or size of the values. Conversion onto the same intervals is the identity, splitting a target interval preserves the total, conversion is linear in the values and constants stay constant; beyond the ends it holds the end value or continues the line as the extrapolation mode says.",
["inputs"],"all strictly increasing source and target interval grids (regular or not, one to thousands of source intervals per target interval), all value magnitudes, all extrapolation modes",
"Tests compare a few stored arrays; numerical integration error depends on the grid ratio and magnitude and cannot be bounded by samples.",
[T],[("mean-preserving linearisation","openscm/core/time.py:_calc_integral_preserving_linear_interpolation"),("interval averages","openscm/core/time.py:_calc_interval_averages")],["TimeseriesConverter.convert_from/convert_to"])
p("C08","No silent extrapolation and no conversion from too little data",
"Without an extrapolation mode, a target that reaches beyond the source, by however little and on either side, is refused with an insufficient-data error, and a target within the source is always accepted. A series of fewer than three values, or one that starts after the target's second point, is refused for every mode; refusal never produces numbers.",
["inputs"],"all source/target grids and overshoots from one second up, both series types, both ends, all modes, reads and writes through views as well as direct conversion",
"The tests check clearly disjoint grids; a small overshoot at one end is a narrow boundary region.",
[T,V],[("length check, bounds errors mapped to InsufficientDataError","openscm/core/time.py:TimeseriesConverter._convert, __init__")],["TimeseriesConverter", "ParameterSet.timeseries(...).values"])
p("C09","Scalar and generic parameters read back what was last written",
"After any sequence of writes through any views, every view of a scalar parameter reads the last value written converted to that view's unit, and every view of a generic parameter reads exactly the last object written; a parameter that was never written raises an empty error. Name spelling as string or sequence denotes the same parameter, parameters of the same name in different regions or different sets are independent, and reported info (type, unit of first use, emptiness, version) follows the history.",
["histories"],"all interleavings of creating, reading and writing scalar and generic views in several units, names and regions",
"Tests follow one fixed script per view type; cross-view, cross-region interference is a property of histories.",
[V,PR,PS,RG],[("shared parameter object behind views","openscm/core/parameterset.py:ParameterSet.scalar/generic"),("unit conversion on access","openscm/core/views.py:ScalarView.value")],["ScalarView.value, GenericView.value, ParameterSet.info"],[("parameter data and flags","value, unit, type, read/written flags, version","openscm/core/parameters.py:_Parameter")])
p("C10","Timeseries views always show the last write, in their own unit and grid",
"After any sequence of whole-array and element writes through any views of a timeseries, every view, and every array handle obtained from a view earlier, shows the last written data converted to that view's unit and time points, in every way of looking at it (indexing, slicing, iteration, arithmetic, numpy functions, conversion to arrays, text). Element writes never lose precision because of the type of earlier data, and while a view is locked its writes stay private to it and are published in one go on unlock.",
["histories"],"all interleavings of views (units, grids, types), whole-array writes with integer or float data, element and slice writes, in-place ufuncs, reads, held handles, lock and unlock",
"Tests run short scripts with one or two views; staleness depends on which view was cached at which version, a history property.",
[V],[("versioned cache per view","openscm/core/views.py:TimeseriesView._read/_write"),("array proxy","openscm/core/views.py:_Timeseries")],["TimeseriesView.values and its handles"],[("cached data with version","copy of converted data","openscm/core/views.py:TimeseriesView._data,_version")])
p("C11","A parent parameter is always the sum of its leaf children",
"Reading a parameter that has child parameters gives, at every moment of any history, the sum over all leaf descendants of their current values converted to the view's unit and time points, at any depth and through any number of views, however often it was read before. It raises an empty error while some leaf is unwritten, and cannot be read as a generic parameter.",
["histories"],"all parameter trees, all interleavings of leaf writes and parent reads, mixed units and grids",
"Tests read a parent once after writing; staleness after later child writes and deep trees are history and structure dependent.",
[V,PR],[("child views summed on read","openscm/core/views.py:ScalarView.value, TimeseriesView._get_values"),("hierarchy freeze on read","openscm/core/parameters.py:_Parameter.get_or_create_child_parameter")],["parent ScalarView.value / TimeseriesView.values"])
p("C12","Illegal parameter operations are refused and leave no trace",
"Using a parameter as a different type than it has (also as part of an aggregate), writing to an aggregate in any way, adding a child below a parameter that was read or written, adding below an already aggregated tree, addressing an unknown root region, writing a wrong number of values, or using an invalid unit raises the documented error. A refused operation changes nothing: values, emptiness, types and units observed afterwards, and what later operations are allowed, are as if it had never been attempted.",
["histories","fault_sequences"],"all histories mixing legal and illegal operations on trees of parameters and regions",
"Tests check that each error is raised once, from a clean state; that a failed call leaves no trace is a property of all histories that contain failures.",
[PR,V,PS,RG],[("attempt_read / attempt_write checks","openscm/core/parameters.py:_Parameter.attempt_read, attempt_write, get_or_create_child_parameter"),("region lookup","openscm/core/parameterset.py:_get_or_create_region")],["ParameterSet.scalar/timeseries/generic/info and view writes"])
p("C13","Conversion through parameter sets equals direct conversion",
"Written through one view and read through another, a value or timeseries equals the direct unit conversion combined with the direct time conversion of the written data, whichever of the two views was created first and for every extrapolation mode; through a parameter stored on a third unit and grid it is the composition of the two conversions. Converting with the writer's own unit and grid returns the written data.",
["inputs"],"all pairs of writer and reader units and grids, storage grids, types and extrapolation modes",
"Tests fix one storage grid and unit; the commutation of the two conversions and the storage independence quantify over all of them.",
[V,T,U],[("convert on write to storage grid, on read to view grid","openscm/core/views.py:TimeseriesView._write/_get_values")],["TimeseriesView.values"])
p("C14","The bundled climate model follows its published equations for every input",
"For every admissible parameter set, emissions pathway, start, stop and step length, the model's outputs equal those of the published DICE carbon-cycle and temperature equations, including the lower and upper bounds, the exogenous forcing ramp and its saturation, and both rounding conventions. Unset parameters take the documented defaults.",
["inputs","configurations"],"all emissions pathways, parameter values, period lengths and horizons; bounds active or not",
"The tests compare one default run with a stored table; bounds, saturation before the start, non-default parameters and other step lengths are never reached.",
[D,A,CI],[("equations per step","openscm/adapters/dice.py:DICE._calc_step"),("initial conditions and matrix","openscm/adapters/dice.py:DICE._reset"),("defaults","openscm/adapters/dice.py:MODEL_PARAMETER_DEFAULTS, STANDARD_PARAMETER_DEFAULTS")],["OpenSCM('DICE').run(); output views"])
p("C15","Model runs conserve carbon and are reproducible, stepwise or whole",
"While no bound is active, the total carbon in the model's three pools increases in each step by exactly the emitted carbon. Running the whole period equals stepping through it, the reported time advances by the step length, and repeating a run, resetting in the middle of stepping, changing inputs or the run period and running again gives exactly what a fresh model with those inputs gives; separate model instances do not influence each other.",
["histories","inputs"],"all sequences of run, reset, step and input changes (emissions, scalars, start and stop time), all inputs",
"The tests run once and step once; leftovers of earlier runs are a property of histories.",
[D,A,CI],[("reset of state before each run","openscm/adapters/dice.py:DICE._reset, _initialize_run_parameters"),("run/step lifecycle","openscm/core/__init__.py:OpenSCM.run/step/reset_stepping; openscm/adapters/__init__.py:Adapter")],["OpenSCM.run/step/reset_stepping; output views"])
p("C16","Model results do not depend on how the input was expressed",
"Giving a model the same input in other units, on a finer or coarser time grid that describes the same emissions, through a dataframe instead of views, or written before or after the model object was created, gives the same output; output read in another unit or grid is the conversion of the output. Emissions that do not cover the run are refused rather than assumed. Loading an unknown model is refused and loading a known one twice gives the same adapter.",
["inputs","configurations"],"all unit and grid representations of the same input, all orders of setup",
"The test uses one representation; independence from representation is a relation over pairs of runs.",
[D,A,CI,PS,B],[("input requested by the adapter in its own unit and grid","openscm/adapters/dice.py:_initialize_run_parameters"),("adapter registry","openscm/adapters/__init__.py:load_adapter")],["OpenSCM(...).run(); output views"])
p("C17","A dataframe holds the same data whichever way it was constructed",
"Building a dataframe from the same timeseries as a wide table, a long table, a series, an array with metadata columns, a CSV or Excel file, another dataframe or a pyam dataframe, with time as datetimes, years or strings and column names in any case, rows and columns in any order, gives equal data and metadata. No value or metadata entry is lost, shuffled or invented, missing required columns and anything that is not timeseries data are refused, and the caller's input objects are left unmodified.",
["inputs"],"all metadata tables with extra columns (missing entries included), all value tables, all supported representations and orders",
"Tests build a few small fixed frames; value-to-metadata alignment after reordering, missing entries and repeated labels is input dependent.",
[B,PY],[("format detection and pivoting","openscm/scmdataframe/base.py:_format_data, _format_long_data, _format_wide_data, _from_ts"),("time index normalisation","openscm/scmdataframe/base.py:ScmDataFrameBase.__init__")],["ScmDataFrame(...).timeseries(), meta, time_points"])
p("C18","Every operation keeps each series attached to its own metadata",
"After any sequence of filtering, appending, renaming, metadata assignment, unit conversion, interpolation, time reassignment and copying, the dataframe contains exactly the series, values, times and metadata that applying the same operations to a plain table of records gives. In particular no series ever carries another series' values or metadata, and length, shape, metadata, values and time views agree with one another.",
["histories"],"all sequences of public operations on all dataframes",
"Tests apply one operation to one fixture; misalignment appears after sequences, for example assigning metadata after a filter or an append.",
[B],[("paired data and meta tables joined by label","openscm/scmdataframe/base.py:ScmDataFrameBase.filter/set_meta/rename/convert_unit/interpolate, df_append")],["timeseries(), meta, values, time_points, len()"],[("data and meta","two tables aligned by label","openscm/scmdataframe/base.py:ScmDataFrameBase._data/_meta")])
p("C19","Metadata filters select exactly the matching series",
"Filtering on metadata keeps exactly the series whose entries match one of the given patterns in every given column, where a star matches any text, every other character matches itself, a regular expression matches as such when requested, non-string values match by equality, and missing entries match only the empty text or a star. The level filter keeps exactly the variables with the requested number of hierarchy levels below the given variable pattern. Dropping instead of keeping returns the complement, and values, times and metadata of what is kept are unchanged.",
["inputs"],"all metadata strings (special characters included) and all patterns, lists of patterns, levels and combinations",
"Tests use a few well-behaved names; escaping errors and repeated hierarchy parts depend on the characters.",
[F,B],[("pattern translation","openscm/scmdataframe/filters.py:pattern_match"),("levels","openscm/scmdataframe/filters.py:find_depth"),("selection","openscm/scmdataframe/base.py:ScmDataFrameBase.filter, _apply_filters")],["ScmDataFrame.filter(...)"])
p("C20","Time filters select exactly the matching time points",
"Filtering by year, month, day, hour or exact time keeps exactly the time points whose calendar field is in the given set, where months and weekdays may be numbers, or full or abbreviated names and ranges of names, and lists of numbers or of names and ranges in any order. Decreasing ranges and unusable values are refused, series keep their values and metadata, combined filters intersect, dropping gives the complement, and the caller's filter values are left unmodified.",
["inputs"],"all time axes (long-range dates included) and all filter values, lists and mixtures of names and ranges",
"Tests use single values or one range; lists mixing several ranges and names, and reuse of the same list, are not reached.",
[F,B,T],[("conversion of names and ranges to numbers","openscm/scmdataframe/filters.py:time_match"),("membership","openscm/scmdataframe/filters.py:years_match, hour_match, datetime_match")],["ScmDataFrame.filter(year=, month=, day=, hour=, time=)"])
p("C21","Appending unions series and averages true duplicates only",
"Appending any number of dataframes gives every series of every input with its values at its own times, one series per distinct metadata, missing metadata columns filled as missing, and the average where several inputs give a value for the same series and time. Real metadata values are never changed, the result as a set does not depend on the order or grouping of appends when there are no duplicates, and the duplicate modes warn, return the joint table or stay silent exactly as documented.",
["inputs","histories"],"all collections of dataframes with overlapping or differing metadata columns, times and values",
"Tests append a few fixtures; sentinel collisions, partially overlapping times and three-way appends are input dependent.",
[B],[("concatenation, NaN sentinel, groupby mean","openscm/scmdataframe/base.py:df_append"),("duplicate handling","openscm/scmdataframe/base.py:_handle_potential_duplicates_in_append")],["df_append, ScmDataFrame.append"])
p("C22","Unit conversion touches exactly the selected series and all of them",
"Converting units of selected series multiplies and shifts exactly their values by the direct conversion from their own unit, sets their unit and conversion context, and leaves all other series bit-for-bit unchanged. Converting back restores the data, and a conversion that fails for any selected series changes nothing.",
["inputs","fault_sequences"],"all dataframes with mixed units, all selections, targets and contexts",
"Tests convert one or two fixed series; selection by several filters, mixed source units and partial failure are not reached.",
[B,U],[("per-unit groups","openscm/scmdataframe/base.py:ScmDataFrameBase.convert_unit")],["ScmDataFrame.convert_unit"])
p("C23","Dataframe interpolation equals converting each series on its own",
"Interpolating or resampling a dataframe gives for every series, independently of the other series, its metadata columns and their types, the direct time conversion of that series onto the target times, treated as point or average according to its declared or guessed type, which is reported in the metadata. Target times may be given as datetimes, numpy datetimes or integer years, and the result is ordinary numeric data carrying exactly the target times.",
["inputs"],"all dataframes mixing point and average series, declared, missing or partly missing types, extra metadata of any type, all target times and extrapolation modes",
"Tests interpolate homogeneous frames; mixtures of types and metadata dtypes change the code path.",
[B,T,G],[("per-type groups and converter","openscm/scmdataframe/base.py:ScmDataFrameBase.interpolate"),("resample","openscm/scmdataframe/base.py:ScmDataFrameBase.resample")],["ScmDataFrame.interpolate, resample"])
p("C24","Resampling grids are exactly the calendar points that span the data",
"The grid generated for a calendar rule consists of all rule dates, strictly increasing and with none skipped, from the last rule date not after the start through the first rule date not before the end. This holds for every supported rule, for dates far outside the nanosecond timestamp range, and business rules are refused.",
["inputs"],"all annual, quarterly, monthly, weekly, daily and shorter rules with anchors, all start and end datetimes",
"Tests use a few starts and three rules inside the timestamp range.",
[O],[("offset wrapping","openscm/scmdataframe/offsets.py:to_offset, apply_dt, apply_rollforward, apply_rollback"),("iteration","openscm/scmdataframe/offsets.py:generate_range")],["generate_range(start, end, to_offset(rule)), ScmDataFrame.resample"])
p("C25","Group statistics and reference-period anomalies are computed per series group",
"Processing over columns gives, for every combination of the remaining metadata (missing entries included) and every time, exactly the mean, median or requested quantile of the group's values, with no group lost or merged. Taking values relative to a reference period subtracts from each series its own mean over exactly the selected times, so the anomaly averages to zero over that period, and only the variable name is extended.",
["inputs"],"all dataframes, grouping columns, quantiles and reference periods",
"Tests check two fixtures; group loss with missing metadata and alignment are input dependent.",
[B],[("grouping","openscm/scmdataframe/base.py:ScmDataFrameBase.process_over"),("reference mean alignment","openscm/scmdataframe/base.py:ScmDataFrameBase.relative_to_ref_period_mean")],["ScmDataFrame.process_over, relative_to_ref_period_mean"])
p("C26","Operations never modify their inputs and in-place variants are equivalent",
"Every operation that returns a new object leaves the dataframe it was called on, and every argument, exactly as it was; later changes of the result do not reach the original nor the other way round. Every in-place variant leaves the object in exactly the state the returning variant would have returned, and an in-place operation that fails leaves it unchanged.",
["inputs","fault_sequences"],"all operations with all arguments, in both variants, successful or failing, followed by mutations of result or original",
"Tests check in-place results for single cases, never purity or failure atomicity.",
[B],[("deep copies before mutation","openscm/scmdataframe/base.py:copy, filter, rename, convert_unit, df_append, interpolate")],["all ScmDataFrame operations"])
p("C27","Writing to CSV and reading back restores the dataframe",
"Writing a dataframe to CSV and reading the file gives the same series, metadata and times, and the same values, for any text metadata (quotes, separators, unicode) and any dates, including those outside the nanosecond timestamp range.",
["inputs"],"all dataframes without missing metadata, all values and dates",
"The tests round trip one fixture.",
[B,PY],[("writer through pyam, reader through pandas","openscm/scmdataframe/base.py:to_csv, _read_pandas, _format_data")],["ScmDataFrame.to_csv / ScmDataFrame(path)"])
p("C28","Dataframes and parameter sets convert into each other without loss",
"Converting a single-scenario dataframe to a parameter set gives one timeseries parameter per series, in its region, unit and type, with exactly its values, and the remaining metadata as generic or scalar parameters; converting a parameter set to a dataframe gives one row per leaf timeseries of every region at any depth. Converting there and back restores data and metadata, and dataframes mixing scenarios or carrying model output are refused without side effects on a given parameter set.",
["inputs"],"all variable and region hierarchies, units, types, metadata and time grids",
"The tests convert one or two fixtures with one region level.",
[B,SI,PS],[("row to parameter","openscm/scmdataframe/base.py:ScmDataFrameBase.to_parameterset"),("walk over parameters","openscm/scmdataframe/__init__.py:convert_openscm_to_scmdataframe")],["to_parameterset, convert_openscm_to_scmdataframe"])
p("C29","Metadata assignment reaches exactly the addressed series",
"Assigning a constant, a list, an array or an index-labelled series to a metadata column gives each series the value addressed to it (by position for lists, by metadata labels or row labels for indexed data, missing where nothing addresses it), in any order of the input and after any earlier filtering. Renaming replaces exactly the mapped entries of the named columns and refuses results with duplicate metadata; no other metadata, no value and no series is added, removed or moved.",
["inputs","histories"],"all metadata tables, assignments (constants, lists, indexed in any order, partial, with unknown labels) and rename mappings",
"Tests use fixtures in natural order; partial, unordered or unknown labels are not reached.",
[B],[("merge on index","openscm/scmdataframe/base.py:ScmDataFrameBase.set_meta, __setitem__"),("replace","openscm/scmdataframe/base.py:ScmDataFrameBase.rename")],["set_meta, df[key] = value, rename, df[key]"])
p("C30","Series type guessing is total and follows the unit's time dimension",
"Guessing whether a series is a point or average series never fails for any variable name and unit text: a unit that is recognised decides by whether it has a time dimension, and otherwise the variable name decides by the documented patterns, with point as default.",
["inputs"],"all variable names and all unit strings, well-formed or not",
"The tests cover a fixed table; arbitrary unit strings occur in user data.",
[G,U],[("unit parse, then name patterns","openscm/scmdataframe/parameter_type.py:guess_parameter_type")],["guess_parameter_type, interpolate/to_parameterset on frames without a declared type"])
p("C31","Dataframes exchange data with pyam without loss",
"Converting to a pyam dataframe gives exactly one record per series and time with its metadata and value, for dates outside the nanosecond timestamp range too, and converting back restores the dataframe.",
["inputs"],"all dataframes without missing metadata, all dates",
"The tests convert one fixture.",
[B,PY],[("wide to long through pyam","openscm/scmdataframe/base.py:to_iamdataframe"),("long datetimes","openscm/scmdataframe/pyam_compat.py:LongDatetimeIamDataFrame")],["to_iamdataframe().data, ScmDataFrame(IamDataFrame)"])
p("C32","Bundled scenarios contain exactly the bundled data",
"The bundled scenario dataframe contains exactly the series, units, times and values of the shipped scenario files, each series once, and any selection by scenario, region, variable and year returns the values of the corresponding file cells.",
["inputs"],"all queries on the bundled scenarios",
"The tests check shape and a few totals.",
[SC,B,F],[("append of the shipped files","openscm/scenarios/__init__.py:rcps")],["openscm.scenarios.rcps.filter(...)"])
p("C33","Model adapters are driven in the documented order and see the user's parameters",
"Whatever sequence of calls a user makes on models (several at once, sharing parameters or not, with errors of the model in between), each adapter's own methods are called exactly as documented: the model is initialised once, as late as possible and before anything else, again only if that failed; inputs and run parameters are initialised and the model is reset at the current start time before every run and before stepping; a step is exactly one step and returns the adapter's time; deleting a model shuts down that model only. Adapters see the very parameter sets the user gave, errors of a model reach the caller, and a model whose module is missing is refused with the documented error.",
["histories","fault_sequences"],"all sequences of initialisation, reset, run, step, creation and deletion of models, all places where a model can fail, all start times and step lengths",
"Tests make each call once on one model; failing initialisations, shared parameter sets and several models at once are not reached.",
["openscm/adapters/__init__.py","openscm/core/__init__.py"],[("initialise once, reset with the start time","openscm/adapters/__init__.py:Adapter"),("prepare, then run","openscm/core/__init__.py:OpenSCM.reset_stepping, run, step")],["OpenSCM.run, reset_stepping, step","Adapter.initialize_model_input, initialize_run_parameters, reset, run, step","load_adapter"])
p("C34","Dataframe operations treat every series alike, in any order, company and century",
"What an operation on a dataframe (filtering, unit conversion, renaming, metadata assignment, interpolation, resampling, anomalies, appending, and sequences of these) gives for a series depends neither on the order in which series and columns are stored, nor on names the operation does not use, nor on which other series are there (apart from operations that combine series), nor on the century (times moved by 400 years, after which the calendar repeats), and is proportional to the values where the operation is linear.",
["inputs","histories"],"all dataframes and sequences of operations, all permutations, one-to-one renamings, shifts by calendar cycles, factors and subsets",
"Tests compare with results for fixtures whose rows come in one order, with one set of names and in one century.",
[B,F,O],[("operations on all series at once, by group or by row","openscm/scmdataframe/base.py:ScmDataFrameBase"),("calendar","openscm/scmdataframe/offsets.py:generate_range")],["timeseries(), meta and values of the results"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import re
for x in P:
    n=len(re.findall(r"[.](?:\s|$)",x["statement"]))
    if n>3: print(x["id"],n)
print(len(P))
