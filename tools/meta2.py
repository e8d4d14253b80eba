
P("P14", "Declustering removes exactly the events inside larger events' windows",
  "Gardner-Knopoff, Uhrhammer and Gruenthal windows equal their published "
  "formulas (in km and days, no time window longer than the cutoff). "
  "Gardner-Knopoff declustering visits the events from the largest to the "
  "smallest (earlier first for ties); each one not yet removed is a main shock "
  "and removes all events inside its space and (fore- and aftershock) time "
  "windows. One flag per row, in row order, whatever the row labels; order of "
  "rows, a shift of all times or a turn of all longitudes do not matter; the "
  "catalogue is not changed.",
  ["inputs", "configurations"],
  "all catalogues, row labels, window methods, foreshock fractions, cutoffs",
  "Tests use one catalogue with a default index and compare stored flags.",
  [(A + "declustering/dec_gardner_knopoff.py:GardnerKnopoffType1._decluster",
    "cluster walk"),
   (A + "declustering/distance_time_windows.py", "window formulas"),
   (A + "declustering/utils.py:haversine", "distances")],
  "reference model of the declustering, plus order, shift and row-label "
  "metamorphic relations",
  "Search up to about 25 events; events close to a window's edge are left out.")

P("P15", "Building a catalogue keeps the events' data",
  "A Catalog or ForecastCatalog built from a table or from event "
  "descriptions has exactly the rows, row labels and columns it was given "
  "(optional ones only if asked for): standard numeric columns hold the "
  "numbers (what is no number is missing), times are the given instants "
  "without time zone, in any notation, year and mixture; placeholder texts "
  "become missing; all other values stay as they are, attributes are stored "
  "and the caller's data are not changed.",
  ["inputs"],
  "all tables of events with arbitrary columns, time notations and gaps",
  "Tests read two sample files with uniform times and clean numbers.",
  [(C + "catalog.py:Catalog.__init__", "parsing of columns"),
   (C + "catalog.py:_robust_parse_datetime", "times"),
   (C + "catalog.py:Catalog.from_dict", "optional columns")],
  "value-by-value comparison with the input data by an independent parser",
  "Search; up to 7 rows.")

P("P16", "Catalogues stay catalogues through table operations",
  "Any sequence of pandas operations on a Catalog or ForecastCatalog gives "
  "the same table as the operations on a plain DataFrame, keeps the class as "
  "long as the required columns are there (and falls back to a plain "
  "DataFrame otherwise), and carries the attributes (name, mc, delta_m, "
  "b_value, a_value, time span, polygon, depth range, n_catalogs) along "
  "unchanged and independent of the original; strip, concatenation, copies, "
  "pickling and csv writing do the same; no operation changes its input.",
  ["inputs", "histories"],
  "all catalogues and histories of table operations and attribute changes",
  "Tests check a few single operations on one catalogue.",
  [(C + "catalog.py:Catalog._constructor", "class"),
   (C + "catalog.py:Catalog.strip", "columns"),
   (C + "catalog.py:ForecastCatalog", "sub-class"),
   (U + "__init__.py", "decorators")],
  "stateful, model-based test: the same history on pandas.DataFrame as "
  "reference model",
  "Search; histories up to 8 operations of about 60 kinds; operations where "
  "pandas itself drops attributes are left out.")

P("P17", "Catalogue methods do what the functions do, and remember it",
  "Estimating b, a or the completeness, binning and plotting through a "
  "Catalog gives exactly what the functions give for its magnitudes, times "
  "and weights, in row order and for any row labels. Arguments win over the "
  "catalogue's attributes (a value of 0 counts as given), which are the "
  "default; a missing completeness or bin width is a ValueError, a missing "
  "column an AttributeError. A call sets exactly the attribute it estimates, "
  "to the returned value, changes no data unless in place, and refused calls "
  "change nothing, along any history of calls.",
  ["inputs", "configurations", "histories"],
  "all catalogues, row labels, attributes and histories of method calls",
  "Tests call each method once on a default-index catalogue, mostly with "
  "arguments only.",
  [(C + "catalog.py:Catalog.estimate_b", "arguments, columns, attributes"),
   (C + "catalog.py:Catalog.estimate_a", "arguments, columns, attributes"),
   (C + "catalog.py:Catalog.estimate_mc_ks", "b-value of the catalogue"),
   (C + "catalog.py:Catalog.bin_magnitudes", "in place or not"),
   (C + "catalog.py:_check_catalog_cols", "columns as arguments"),
   (U + "__init__.py:require_cols", "required columns")],
  "differential test against the plain functions plus a stateful model of the "
  "attributes",
  "Search; up to 45 events and 9 calls per history.")

I = "seismostats/io/"

P("P18", "QuakeML written from a catalogue reads back as the same catalogue",
  "Writing a catalogue to QuakeML gives a well-formed document, with exactly "
  "the events that have the required values, and reading it back gives the "
  "same catalogue: times to the microsecond, numbers to 12 digits, ids, types, "
  "modes with any special characters, quality values and secondary magnitudes "
  "of any type with their own uncertainties and ids; what was missing is "
  "missing again. Catalogues of a forecast are written one by one, each with "
  "its own events. Writing does not change the catalogue.",
  ["inputs", "configurations"],
  "all catalogues with any of the QuakeML columns, texts and gaps",
  "Tests write one catalogue with complete, well-behaved values.",
  [(C + "catalog.py:Catalog.to_quakeml", "writer"),
   (C + "catalog.py:Catalog.from_quakeml", "reader"),
   (C + "catalog_templates/quakeml.j2", "template"),
   (I + "parser.py:QuakeMLHandler", "reader")],
  "round trip (write, read back, compare every value) plus well-formedness "
  "checked by an independent XML parser",
  "Search; up to a few events per catalogue; the schema itself is not used.")

P("P19", "The QuakeML reader gives every event its own preferred values",
  "Reading a QuakeML document as string, file or streamed response, in pieces "
  "of any size, gives one entry per event in document order with the event's "
  "own id and type, all values of its preferred origin and magnitude, quality "
  "if asked for, and of every other magnitude type the one with the highest "
  "version and latest creation time. Nothing of other elements, comments or "
  "other events gets in, whatever the order of elements. A truncated document "
  "is refused; an empty one has no events.",
  ["inputs", "faults"],
  "all QuakeML documents, read sizes and points of truncation",
  "Tests read a few stored documents that fit in one buffer.",
  [(I + "parser.py:QuakeMLHandler", "SAX handler"),
   (I + "parser.py:_select_secondary_magnitudes", "choice of magnitudes"),
   (I + "parser.py:parse_quakeml_response", "truncation"),
   (I + "parser.py:parse_quakeml_file", "truncation, buffers")],
  "generated documents rendered from plain data, which is the oracle; fault "
  "injection by cutting documents",
  "Search; up to 4 events, 3 origins and 5 magnitudes each.")

P("P20", "The FDSN client returns exactly the events the service has",
  "A query returns every event of the service within the limits and no other "
  "(limits of zero, fractions of a second, time zones and half a magnitude "
  "bin below the minimum count), in the service's order, with the requested "
  "columns only and the queried time span. Batches of any size give the same "
  "as one request, none larger than asked for and without many more requests "
  "than batches. If a request fails (error status, broken connection, "
  "truncated answer), the caller gets an error or everything, never a part. "
  "Queries of one client do not influence each other.",
  ["inputs", "faults", "histories"],
  "all contents of the service, limits, options, batch sizes, transfer "
  "encodings and faults at any request",
  "Tests replace the service by a few stored answers, with at most four "
  "batches and no fault.",
  [(C + "client.py:FDSNWSEventClient.get_events", "request and result"),
   (C + "client.py:FDSNWSEventClient._get_batch_count", "number of batches"),
   (C + "client.py:FDSNWSEventClient._exists_with_offset", "probing"),
   (C + "client.py:_raise_for_status", "failed requests")],
  "a real HTTP server on the loopback interface as model of the service, with "
  "fault injection at every request; compared with the limits applied to the "
  "plain events",
  "Search; up to 30 events, 3 queries per client. The service is consistent "
  "during a query; batch sizes are positive.")

P("P21", "Rate grids keep their cells, times and statistics",
  "Table operations on a rate grid give the table pandas gives, keep the "
  "class while the required columns are there, and carry name, time span and "
  "number of grids along. Concatenated grids have all rows in order, labelled "
  "with their grid's start (and end) time and a cell number that is equal "
  "exactly for equal bounds, missing depths included; the whole spans the "
  "times of all; grids without the times needed or with different index "
  "levels are refused. Statistics have one row per time step and cell with "
  "the cell's own bounds, the chosen statistic of every number over the "
  "realizations and the extra ones. Inputs are not changed.",
  ["inputs", "histories"],
  "all grids, extra columns, gaps, row labels, histories of table operations, "
  "concatenations and statistics",
  "Tests use one grid without gaps and compare shapes and one standard "
  "deviation.",
  [(C + "rategrid.py:GRRateGrid.concat", "concatenation"),
   (C + "rategrid.py:GRRateGrid._reindex_cell_id", "cell numbers"),
   (C + "rategrid.py:ForecastGRRateGrid.calculate_statistics", "statistics"),
   (C + "rategrid.py:_rategrid_constructor_with_fallback", "class")],
  "model-based: plain DataFrames for histories, plain Python grouping for "
  "concatenation and statistics",
  "Search; up to 4 grids of 8 rows, histories up to 7 operations. Operations "
  "where pandas itself drops the class (apply, map, T) are left out.")

P("P22", "Conversion to and from OpenQuake keeps every event's data",
  "to_openquake gives the events in order with date, time of day including "
  "the fraction of the second, their ids (or unique new ones) and all other "
  "columns; from_openquake gives each event at its own time to the "
  "microsecond, whatever the years of the others, with all other columns and "
  "the time columns if asked for. Converting there and back, from either "
  "side, changes nothing; neither conversion changes its source; empty "
  "catalogues stay empty.",
  ["inputs"],
  "all catalogues with times from year 1 on, any fractions of seconds, gaps, "
  "row labels and additional columns",
  "Tests convert a handful of stored catalogues; historical ones with whole "
  "seconds only.",
  [(C + "catalog.py:Catalog.from_openquake", "times, columns"),
   (C + "catalog.py:Catalog.to_openquake", "times, ids")],
  "round trips in both directions, compared with the plain input data",
  "Search; up to 7 events. Needs the installed openquake package.")

P("P23", "Coordinates, bounding boxes and polygons select what they describe",
  "Local coordinates are the projected ones relative to the reference point, "
  "which is the origin, for numbers, lists, arrays and columns alike; the way "
  "back gives the same points, altitudes only shift. Polygons, with holes and "
  "altitudes, are converted vertex by vertex and back. The polygon of a "
  "bounding box is exactly the rectangle, the bounding box of a polygon its "
  "extreme coordinates. Cutting a catalogue with a polygon keeps exactly the "
  "events inside or on the border, in order, with all columns, row labels and "
  "attributes, and leaves the input alone.",
  ["inputs"],
  "all points, reference points, boxes, polygons and catalogues",
  "Tests use one reference point and one polygon.",
  [(U + "coordinates.py:CoordinateTransformer", "transformation"),
   (U + "coordinates.py:bounding_box_to_polygon", "boxes"),
   (U + "coordinates.py:polygon_to_bounding_box", "boxes"),
   (U + "filtering.py:cat_intersect_polygon", "events in a polygon")],
  "round trips, metamorphic relations, and a reference point-in-polygon test",
  "Search. Needs the installed projection database (EPSG:2056 and others).")

P("P24", "Functions leave their inputs alone; warnings change nothing",
  "No function of the analysis and utility modules, plot or catalogue method "
  "changes the arrays, lists, dictionaries or tables it is given, whatever "
  "options are set (in-place operations that are asked for aside): arrays "
  "that cannot be written to give the same results, and a "
  "second call gives the same again. Columns of a table give the same as "
  "arrays, whatever their row labels. Switching the package's warnings off "
  "silences them and changes neither results nor errors; on again, they come "
  "back. Conversion of local magnitudes follows the published relation, leaves "
  "others as they are and is not applied twice.",
  ["inputs", "configurations"],
  "24 functions with all arguments, containers and row labels",
  "Tests call functions with fresh arrays, with the warnings switched on.",
  [(U + "_config.py:get_option", "warnings"),
   (A + "estimate_mc.py:estimate_mc_b_stability", "warnings"),
   (A + "bvalue/base.py:BValueEstimator.calculate", "inputs"),
   (A + "b_significant.py:est_morans_i", "inputs"),
   (A + "bvalue/utils.py:make_more_incomplete", "containers"),
   (A + "magnitudes.py:apply_edwards", "conversion")],
  "metamorphic: the same call with other containers, read-only arrays, "
  "warnings switched off",
  "Search; up to 40 events.")

P("P25", "Requests that make no sense are refused, sensible ones are not",
  "A request the package declares invalid raises an error and never returns a "
  "number: magnitudes off the stated grid, weights that are negative or do "
  "not match, negative cutoffs, unknown parameters, methods or options, "
  "widths that are not positive, completeness tables out of order, neighbour "
  "matrices of the wrong form, lists of different length, windows below the "
  "minimum, missing completeness, bin width, times or columns, results asked "
  "for before the calculation. The same request without the fault is "
  "accepted, up to the limit of what is allowed.",
  ["inputs"],
  "44 faults, each planted at any place of any valid request",
  "Tests spoil one example each, far from the limits.",
  [(A + "bvalue/base.py:BValueEstimator._sanity_checks", "b-values"),
   (A + "avalue/base.py:AValueEstimator._reference_scaling", "a-values"),
   (A + "b_significant.py:est_morans_i", "neighbour matrices"),
   (A + "b_significant.py:b_significant_1D", "lengths and minima"),
   (A + "bvalue/weichert.py:estimate_b_weichert", "tables"),
   (A + "estimate_mc.py:estimate_mc_b_stability", "stability range"),
   ("seismostats/plots/statistical.py:plot_b_series_constant_nm", "figures"),
   ("seismostats/catalogs/catalog.py:Catalog.estimate_b", "attributes"),
   (U + "binning.py:get_fmd", "widths")],
  "metamorphic: a valid call and the same call with one fault",
  "Search; the type of the exception is not judged.")

P("P26", "Options left out have their documented values",
  "An option of a public function or method that is left out has the value "
  "its signature states: leaving it out, naming it with that value and giving "
  "it by position all return (or draw) the same, alone and with other options "
  "set. Options that take their value from a catalogue (mc, delta_m, b_value) "
  "or from the data (last year, tested completeness values, window sizes, "
  "reference magnitude, scaling) do so when they are left out and only then.",
  ["inputs", "configurations"],
  "54 functions and methods, with any subset of their options left out",
  "Tests name the options, or leave out all of them with the same data.",
  [(A + "estimate_mc.py:estimate_mc_b_stability", "completeness"),
   (A + "bvalue/kijko_smit.py:estimate_b_kijko_smit", "last year"),
   (A + "b_significant.py:b_significant_1D", "variation"),
   ("seismostats/catalogs/catalog.py:Catalog.estimate_mc_ks", "methods"),
   ("seismostats/plots/basics.py:plot_cum_fmd", "figures"),
   ("seismostats/plots/statistical.py:plot_b_significant_1D", "figures"),
   (U + "coordinates.py:CoordinateTransformer", "coordinates")],
  "differential: option left out, named and given by position",
  "Search; up to 40 events. The values are those of the release examined.")

P("P27", "Suspicious requests are warned about, ordinary ones are not",
  "With warnings switched on the package warns exactly when one of its "
  "reasons holds: no event above the completeness, lowest complete bin empty, "
  "magnitude difference below the bin width, no pair of events for an "
  "a-value, magnitudes below a completeness table, magnitudes or tested "
  "values that are not binned, fewer than 30 events above a tested value, "
  "samples that are empty, have one value or values below the completeness, "
  "fewer than 15 windows, a neighbour matrix with a diagonal. Requests "
  "without such a reason give no warning, up to the limit of what is "
  "ordinary.",
  ["inputs"],
  "12 reasons, each just present or just absent, with any other data",
  "Tests expect a few warnings in clear cases and none at the limits.",
  [(A + "bvalue/base.py:BValueEstimator._sanity_checks", "b-values"),
   (A + "avalue/base.py:AValueEstimator._sanity_checks", "a-values"),
   (A + "bvalue/weichert.py:estimate_b_weichert", "tables"),
   (A + "estimate_mc.py:estimate_mc_b_stability", "fewer than 30 events"),
   (A + "estimate_mc.py:ks_test_gr", "samples"),
   (A + "b_significant.py:b_significant_1D", "windows")],
  "presence of a warning against reasons computed from the data",
  "Search; wording and number of the warnings are not judged; an empty lowest "
  "bin is not judged when there are events below the completeness.")

P("P28", "Rounding of the numbers given does not matter",
  "Magnitudes on a grid and completeness values that carry rounding errors "
  "(0.1 * 3 for 0.3, sums, one unit in the last place) count as the grid "
  "values they stand for: estimators, completeness methods, the variation "
  "test, binning, frequency-magnitude distributions, simulations and figures "
  "accept them just the same and give the same results up to rounding; no "
  "event falls out of, or into, a sample or bin.",
  ["inputs"],
  "39 functions and methods that have a bin width",
  "Tests use numbers typed in with one decimal.",
  [(U + "binning.py:binning_test", "tolerance"),
   (U + "binning.py:bin_to_precision", "bins"),
   (A + "bvalue/base.py:BValueEstimator._filter_magnitudes", "completeness"),
   (A + "avalue/base.py:AValueEstimator._filter_magnitudes", "completeness"),
   (A + "bvalue/positive.py:BPositiveBValueEstimator._estimate", "pairs"),
   (A + "estimate_mc.py:estimate_mc_ks", "samples"),
   (A + "b_significant.py:b_significant_1D", "completeness"),
   ("seismostats/plots/basics.py:plot_cum_fmd", "line"),
   ("seismostats/plots/statistical.py:plot_b_series_constant_nm", "samples")],
  "metamorphic: the same call with the closest doubles",
  "Search; functions without a bin width, unlimited estimates and choices "
  "between equal distances are not judged.")

P("P29", "The options of a plot do what they say",
  "Every plotting function draws in the colour, size, colour map, line style "
  "and axes it is given and in its documented default where it is not; a "
  "legend is shown exactly if asked for and says what was asked for, naming "
  "each curve in its own colour; further arguments reach the estimator; a map "
  "shows all events with a margin (or the country switched on; events without "
  "magnitude do not disturb dots and legend of the others), keeps what "
  "the axes showed before, veils only the surroundings of the country, and "
  "fetches a background only if asked for. The plot methods of a catalogue "
  "draw, for any subset of options, what the functions draw for its columns "
  "with the catalogue's own bin width, completeness and b-value where they "
  "are left out.",
  ["inputs", "configurations"],
  "the plotting functions and the plot methods of catalogues",
  "Tests check that a figure is made; hardly any option is given and nothing "
  "is read back.",
  [("seismostats/plots/basics.py:plot_fmd", "points, legend"),
   ("seismostats/plots/basics.py:plot_cum_count", "colours, legend"),
   ("seismostats/plots/basics.py:plot_mags_in_time", "dots, steps"),
   ("seismostats/plots/statistical.py:plot_mc_vs_b", "curves"),
   ("seismostats/plots/statistical.py:plot_b_significant_1D", "threshold"),
   ("seismostats/plots/seismicity.py:plot_in_space", "section, dots, legend"),
   ("seismostats/plots/seismicity.py:plot_in_space", "background"),
   ("seismostats/catalogs/catalog.py:Catalog.plot_fmd", "attributes")],
  "read back of the figure against the options; differential method vs "
  "function",
  "Search; Agg backend; tiles are never fetched (only which source is "
  "attached is judged); exact shades are not judged.")

P("P30", "Calls leave no traces behind",
  "What a function, estimator, method or figure returns depends on its "
  "arguments alone (and on the package's documented options and the seed of "
  "the random numbers): it is the same whatever was called before, with "
  "whatever data, also when the same arrays were changed in place or results "
  "handed out earlier were overwritten, when an earlier call failed, and "
  "however often it is repeated. Calls leave the settings of the process as "
  "they were: numpy's and pandas' options, plotting defaults, warning "
  "filters, environment, working directory, locale and the package's "
  "options; the stream of random numbers is never reset.",
  ["histories", "configurations"],
  "all public functions and methods",
  "Tests call each function in isolation, and run in one process whose "
  "settings nobody looks at.",
  [("seismostats/utils/_config.py:get_option", "options"),
   ("seismostats/analysis/bvalue/base.py:BValueEstimator.calculate",
    "state of an estimator"),
   ("seismostats/analysis/bvalue/utils.py:find_next_larger", "helpers"),
   ("seismostats/analysis/estimate_mc.py:cdf_discrete_exp", "helpers"),
   ("seismostats/plots/basics.py:plot_cum_count", "default lists"),
   ("seismostats/plots/seismicity.py:plot_in_space", "options that last"),
   ("seismostats/utils/simulate_distributions.py:"
    "simulate_magnitudes_binned", "random stream"),
   ("seismostats/catalogs/catalog.py:Catalog.estimate_b", "attributes")],
  "differential against a process in which nothing was called before; "
  "invariants over the settings of the process",
  "Search; state kept outside the process (files) and settings of other "
  "libraries are not judged; figures are compared by what they draw.")

P("P31", "Numbers count by their value, not by their type",
  "Magnitudes, times, weights, coordinates, bin widths, completeness values, "
  "years and other options give the same result whatever type holds them: "
  "Python numbers, numpy integers or floats of any size or byte order, arrays "
  "that are views, reversed or cannot be written to, times in any unit. "
  "Nothing is cut to whole numbers, overflows, or is taken for something else "
  "(a year for a day) because of its type, and no type of number is refused.",
  ["inputs", "configurations"],
  "all public functions and methods",
  "Tests use Python floats and arrays of doubles.",
  [("seismostats/analysis/b_significant.py:b_significant_1D", "scalars"),
   ("seismostats/analysis/b_significant.py:values_from_partitioning",
    "scalars"),
   ("seismostats/plots/statistical.py:plot_b_series_constant_nm", "scalars"),
   ("seismostats/plots/basics.py:plot_mags_in_time", "years"),
   ("seismostats/analysis/bvalue/weichert.py:estimate_b_weichert", "years"),
   ("seismostats/utils/binning.py:bin_to_precision", "arrays"),
   ("seismostats/catalogs/catalog.py:Catalog.to_quakeml", "columns"),
   ("seismostats/analysis/declustering/utils.py:haversine", "arrays")],
  "metamorphic: the same values in other types",
  "Search; values are exact in every type used (bins of 1, 2, 0.5, 0.25); "
  "byte orders that pandas does not support are left out; unsigned integers "
  "and booleans are not used as numbers.")

P("P32", "Origins and units of scales do not matter",
  "Moving magnitudes and completeness by a number of bins leaves b-values, "
  "a-values at the completeness, uncertainties, p-values, counts and indices "
  "as they are and moves what is a magnitude by just that: no value of the "
  "scale, zero and negative ones included, is special. Counting times from "
  "another origin or in another unit changes no estimate, and moves or "
  "scales the times reported; dates are free to lie before 1970.",
  ["inputs"],
  "estimators, completeness, significance, declustering, binning, "
  "simulation, catalogues, figures",
  "Tests use a few positive magnitudes and recent times.",
  [("seismostats/analysis/bvalue/base.py:BValueEstimator.calculate",
    "magnitudes"),
   ("seismostats/analysis/avalue/base.py:AValueEstimator.calculate",
    "reference magnitude"),
   ("seismostats/analysis/avalue/positive.py:APositiveAValueEstimator",
    "times"),
   ("seismostats/analysis/avalue/more_positive.py:"
    "AMorePositiveAValueEstimator", "times"),
   ("seismostats/analysis/estimate_mc.py:estimate_mc_ks", "magnitudes"),
   ("seismostats/analysis/estimate_mc.py:estimate_mc_maxc", "magnitudes"),
   ("seismostats/analysis/b_significant.py:b_significant_1D", "magnitudes"),
   ("seismostats/plots/basics.py:plot_cum_fmd", "magnitudes"),
   ("seismostats/catalogs/catalog.py:Catalog.estimate_a", "attributes")],
  "metamorphic: data moved by bins, times moved and rescaled",
  "Search; magnitudes are moved by whole bins; unlimited estimates are not "
  "judged; numbers of map legends are chosen by matplotlib.")
