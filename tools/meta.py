"""The list of properties and of findings (see gen_meta.py)."""
META = []
TECH = "property-based testing (Hypothesis): "


def P(id, title, statement, over, quant, why, anchors, tech, note):
    META.append(dict(id=id, title=title, statement=statement, over=over,
                     quant=quant, why=why, anchors=anchors, tech=TECH + tech,
                     note=note))


U = "seismostats/utils/"
A = "seismostats/analysis/"
C = "seismostats/catalogs/"

P("P01", "Binning puts every value into the right bin of the right grid",
  "Rounding magnitudes to a bin width sends each value to the nearest multiple "
  "of the width (ties upwards), keeping length and order, and doing it again "
  "changes nothing. The binning test accepts data exactly when they lie on one "
  "grid of the stated width (and, if asked, on no coarser decimal grid), for "
  "any width and any magnitude level; non-positive widths are refused.",
  ["inputs"], "all finite value arrays, bin widths and offsets",
  "Whether a decimal grid value survives floating point depends on the value, "
  "the width and their ratio; tests try a handful of widths near magnitude 0 "
  "to 5.",
  [(U + "binning.py:bin_to_precision", "shifted floor, then decimal rounding"),
   (U + "binning.py:binning_test", "residual modulo the width within a "
    "tolerance")],
  "exact decimal arithmetic as reference model, plus idempotence, monotonicity "
  "and translation relations",
  "Search, no proof. Magnitudes up to 1e4 bins away from zero, widths 0.001 to "
  "1; exact ties are only judged where decimal arithmetic and doubles agree.")

P("P02", "Frequency-magnitude distributions count every event exactly once",
  "The frequency-magnitude distribution is a gap-free sequence of bins of the "
  "given width covering all events, in which each event (or its weight) is "
  "counted in the bin its magnitude rounds to. The cumulative distribution at a "
  "bin is the number (weight) of events in that bin or above.",
  ["inputs"], "all magnitude arrays with and without weights, bin widths, bin "
  "positions, requested upper limits",
  "Tests compare three small arrays; edges between bins depend on float "
  "representation of every bin boundary.",
  [(U + "binning.py:get_fmd", "histogram over rounded magnitudes"),
   (U + "binning.py:get_cum_fmd", "cumulative sums from the right")],
  "counting reference model in exact arithmetic; conservation of counts",
  "Search. Values within float noise of a bin edge are placed on the grid "
  "exactly, not between bins.")

P("P03", "Classic and Utsu b-values are the maximum-likelihood estimates",
  "The classic and the Utsu estimator return the closed-form estimate of the "
  "b-value for exactly the events at or above the completeness magnitude, "
  "binned or continuous, weighted or not. The estimate does not depend on the "
  "order of events, on events below completeness, on missing magnitudes, or on "
  "a common shift of magnitudes and completeness; inputs that are not on the "
  "stated grid and invalid weights are refused.",
  ["inputs"], "all magnitude samples, completeness levels, bin widths, weights",
  "Tests check a few fixed samples with one result each; relations between "
  "different inputs are never checked.",
  [(A + "bvalue/classic.py:ClassicBValueEstimator", "closed-form estimate"),
   (A + "bvalue/utsu.py:UtsuBValueEstimator", "closed-form estimate"),
   (A + "bvalue/base.py:BValueEstimator.calculate", "filtering above "
    "completeness, sanity checks")],
  "independent closed forms as reference; metamorphic relations (permutation, "
  "shift, replication of weights)",
  "Search; agreement to 1e-9 relative.")

P("P04", "Positive b-value methods use exactly the right event pairs",
  "b-positive uses precisely the consecutive pairs in time order whose "
  "magnitude grows by at least the cutoff, and b-more-positive pairs each event "
  "with the first later event that is larger by at least the cutoff. Estimates, "
  "and the reported counts, indices, weights and times, refer to those pairs "
  "whatever the order in which the events are passed or the representation of "
  "their times.",
  ["inputs", "histories"],
  "all event sequences (order, ties in magnitude, missing values), cutoffs, "
  "weights, time representations",
  "The selection depends on the whole history of events; tests fix one or two "
  "short sequences.",
  [(A + "bvalue/positive.py:BPositiveBValueEstimator", "differences in time "
    "order"),
   (A + "bvalue/more_positive.py:BMorePositiveBValueEstimator", "next larger "
    "event"),
   (A + "bvalue/utils.py:find_next_larger", "search for the next larger "
    "event")],
  "brute-force O(n^2) reference of the pair definition; metamorphic relations",
  "Search over sequences of up to about 60 events.")

P("P05", "Estimates depend only on the arguments, not on earlier use",
  "An estimator object gives the same answer however often and with whatever "
  "data it was used before, the function form gives the same numbers as the "
  "object form for every combination of requested outputs, and inputs are never "
  "modified. Results asked for before any calculation raise instead of "
  "returning a number.",
  ["histories", "inputs", "configurations"],
  "all sequences of calculations (including refused ones) on one estimator; all "
  "output combinations",
  "Tests use a fresh estimator per call and two output combinations.",
  [(A + "bvalue/base.py:BValueEstimator", "state set by each calculation"),
   (A + "bvalue/__init__.py:estimate_b", "function form"),
   (A + "avalue/__init__.py:estimate_a", "function form")],
  "stateful histories on one object compared with fresh objects (differential)",
  "Search over histories of up to 6 calculations.")

P("P06", "b-value uncertainties follow their definition",
  "The reported uncertainty is the Shi and Bolt (1982) expression of exactly "
  "the (weighted) values behind the estimate, ln 10 times larger for beta. The "
  "bootstrap uncertainty is the sample deviation of the statistic over "
  "resamples of full length, ignoring undefined ones and repeatable for a given "
  "random state; for the more-positive method it resamples events with their "
  "weights and order.",
  ["inputs"], "all samples, weights, statistics, numbers of resamples, random "
  "states",
  "Tests compare one number; weights, degenerate samples and undefined "
  "resamples are not tried.",
  [(A + "bvalue/utils.py:shi_bolt_confidence", "closed form"),
   (A + "bvalue/utils.py:bootstrap_std", "resampling"),
   (A + "bvalue/more_positive.py:BMorePositiveBValueEstimator.std",
    "bootstrap")],
  "closed form and recorded resamples as oracle; statistical acceptance bands",
  "Search; the spread over resamples is judged within statistical bands wide "
  "enough for no false alarm.")

P("P07", "a-values count the right events and scale as stated",
  "Every a-value method returns the logarithm of its event count (all events; "
  "positive pairs rescaled by their share of time; scaled waiting times), "
  "converted to the reference magnitude along the b-value and normalised by the "
  "scaling factor. It does not depend on event order or on unit, origin or "
  "representation of the times.",
  ["inputs"], "all event sequences, time representations, cutoffs, scaling "
  "factors, reference magnitudes",
  "Tests use one evenly spaced sequence per method; time resolution effects "
  "only show with other spacings and types.",
  [(A + "avalue/base.py:AValueEstimator", "reference magnitude, scaling"),
   (A + "avalue/positive.py:APositiveAValueEstimator", "time share"),
   (A + "avalue/more_positive.py:AMorePositiveAValueEstimator", "scaled "
    "waiting times")],
  "reference model; metamorphic relations on time, order and scaling",
  "Search; agreement to 1e-9 relative where times are exactly representable.")

P("P08", "Unequal-completeness b-values solve their likelihood equations",
  "With several completeness periods, the Kijko-Smit and Weichert estimates, "
  "their errors, rates and a-values are those of the published equations over "
  "exactly the events complete in their period. Event order, periods without "
  "events and the choice between b and beta do not change them.",
  ["inputs"], "all period tables, event sets, bin widths, maximum magnitudes",
  "Tests check one table each; the solution of an implicit equation cannot be "
  "validated by a few outputs.",
  [(A + "bvalue/kijko_smit.py:estimate_b_kijko_smit", "closed form"),
   (A + "bvalue/weichert.py:estimate_b_weichert", "Newton-Raphson solution")],
  "residual of the likelihood equation and independent closed forms as oracle",
  "Search; Weichert is judged by root bracketing of the equation in a "
  "tolerance of 1e-5.")

P("P09", "Completeness estimates satisfy their stated selection rule",
  "Maximum curvature returns the centre of a most populated bin plus the "
  "correction; b-value stability and the KS method return the smallest tested "
  "completeness that meets their criterion (or the best one if all are "
  "tested), and nothing if none does. Reported per-candidate statistics belong "
  "to that candidate and equal their definition.",
  ["inputs", "configurations"],
  "all magnitude samples, candidate lists (order, duplicates, gaps), methods "
  "and stopping options",
  "Tests check one catalogue; the selection logic depends on which candidates "
  "pass or fail.",
  [(A + "estimate_mc.py:estimate_mc_maxc", "most populated bin"),
   (A + "estimate_mc.py:estimate_mc_b_stability", "stability criterion"),
   (A + "estimate_mc.py:estimate_mc_ks", "KS p-values")],
  "per-candidate reference model and replay of the selection rule",
  "Search; candidates whose criterion is within float noise of the limit are "
  "set aside.")

P("P10", "Synthetic magnitudes follow the requested law exactly",
  "Simulated magnitudes have the requested number, never leave the requested "
  "magnitude range, and follow the (truncated, binned or continuous) "
  "exponential law with the given b-value or with one b-value per event. "
  "Dithering binned magnitudes moves no event out of its bin.",
  ["inputs", "configurations"],
  "all b-values, completeness levels, maximum magnitudes (also 0 and negative), "
  "bin widths, random states",
  "Tests fix one seed and compare with stored numbers.",
  [(U + "simulate_distributions.py:simulate_magnitudes", "inverse transform"),
   (U + "simulate_distributions.py:simulate_magnitudes_binned", "binning"),
   (U + "simulate_distributions.py:dither_magnitudes", "per-bin draw")],
  "invariants on range and bins, Kolmogorov-Smirnov distance to the analytic "
  "distribution",
  "Search; distributional claims have false-alarm probability below 1e-7 per "
  "case.")

P("P11", "Goodness-of-fit distances and p-values equal their definition",
  "The KS test reports the largest distance between the (weighted) sample and "
  "the Gutenberg-Richter law and, as p-value, the share of synthetic samples at "
  "least as far away. The Lilliefors p-value offered by the estimators is that "
  "of the magnitudes actually used and does not depend on event order or a "
  "common shift.",
  ["inputs"], "all samples, weights, b-values, given or simulated distances",
  "Tests check two samples; p-values hide errors of the distance.",
  [(A + "estimate_mc.py:ks_test_gr", "distance and p-value"),
   (A + "lilliefors.py:ks_test_gr_lilliefors", "Lilliefors p-value"),
   (A + "bvalue/base.py:BValueEstimator.p_lilliefors", "per-estimate "
    "p-value")],
  "reference model of the distance; metamorphic relations; statistical bands",
  "Search; simulated p-values are judged in bands with false-alarm probability "
  "below 1e-7.")

P("P12", "b-value variation test uses the right windows and statistics",
  "The significance test of b-value variations cuts the events above their own "
  "completeness, in the order of the dimension of interest, into windows of "
  "constant event number, estimates each window at the largest completeness "
  "inside it, and reports the mean autocorrelation over all shifts with its "
  "expected spread and p-value. Moran's I, the sample-size transformation and "
  "the cutting of series equal their definitions.",
  ["inputs", "configurations"],
  "all event sets, completeness series, window lengths, estimators, neighbour "
  "matrices",
  "Tests use random data with stored results; index bookkeeping across sorting "
  "and cutting is not exercised.",
  [(A + "b_significant.py:b_significant_1D", "windows and test"),
   (A + "b_significant.py:est_morans_i", "autocorrelation"),
   (A + "b_significant.py:values_from_partitioning", "per-window estimates"),
   (A + "b_significant.py:cut_constant_idx", "window bookkeeping"),
   (A + "b_significant.py:transform_n", "sample-size transformation")],
  "step-by-step reference implementation from the definitions",
  "Search; series of up to about 150 events.")

P("P13", "Plots draw exactly the data they are given",
  "Every plot shows the numbers that the corresponding analysis function "
  "yields: counts per bin, cumulative counts, magnitudes in time with "
  "completeness steps, epicentres within the map, b-value curves with their "
  "bands. Missing magnitudes, event order and input containers do not distort "
  "or lose points, and the caller's data are not changed.",
  ["inputs", "configurations"],
  "all catalogues, weights, completeness lists and plot options",
  "Tests only check that an axes object comes back.",
  [("seismostats/plots/basics.py:plot_cum_fmd", "artist data"),
   ("seismostats/plots/basics.py:plot_fmd", "artist data"),
   ("seismostats/plots/basics.py:plot_cum_count", "artist data"),
   ("seismostats/plots/basics.py:plot_mags_in_time", "artist data"),
   ("seismostats/plots/basics.py:dot_size", "dot sizes"),
   ("seismostats/plots/seismicity.py:plot_in_space", "map extent"),
   ("seismostats/plots/statistical.py:plot_mc_vs_b", "curve and band"),
   ("seismostats/plots/statistical.py:plot_b_series_constant_nm",
    "running windows"),
   ("seismostats/plots/statistical.py:plot_b_significant_1D",
    "per-length test")],
  "reading back the drawn artists and comparing with independent computations",
  "Search; Agg backend, maps without downloaded background data.")

exec(open(__file__.replace("meta.py", "meta2.py")).read())

FINDINGS = []


def fixed(pid, commit, what):
    FINDINGS.append({"property": pid, "status": "fixed", "commit": commit,
                     "what": f"fixed: property={pid} {commit} {what}"})


def known(pid, facet, case, what):
    FINDINGS.append({"property": pid, "status": "known", "facet": facet,
                     "case": case, "what": what})


fixed("P01", "a723a57", "correctly binned values were rejected because of float resolution")
fixed("P01", "46c68cb", "the binning test with width 0 always raised")
fixed("P04", "803085e", "b-more-positive failed for continuous magnitudes (delta_m = 0)")
fixed("P04", "a5649bf", "weighted b-positive without any positive difference raised ZeroDivisionError")
fixed("P05", "e63df68", "estimate_b(return_n=True, return_std=False) raised TypeError")
fixed("P07", "ed2d6d1", "a-more-positive truncated scaled waiting times to the unit of the times")
fixed("P08", "b93493d", "Kijko-Smit and Weichert failed with b_parameter='beta'")
fixed("P08", "6f97f5a", "Kijko-Smit was nan if one completeness period has no events")
fixed("P08", "984ca6e", "Kijko-Smit a-value was shifted by half a bin")
fixed("P08", "b370bd2", "Weichert ignored magnitude bins without events")
fixed("P09", "49a453c", "b-stability averaged over one b-value too many for some mc")
fixed("P09", "3d00555", "b-stability returned None instead of a completeness of 0")
fixed("P09", "e66d927", "b-stability tested no mc at all if the stability range is one bin")
fixed("P11", "772bbdc", "result of the KS test depended on the 'warnings' option")
fixed("P10", "2ebade1", "simulate_magnitudes ignored a maximum magnitude of 0")
fixed("P10", "4af6bc1", "truncated synthetic magnitudes lost precision at large magnitudes")
fixed("P10", "1afa398", "dithering refused magnitudes that also fit a coarser grid (also P11)")
fixed("P12", "510bb9c", "b-more-positive uncertainty raised if there is no estimate")
fixed("P12", "53482da", "individual completeness was not sorted along with the magnitudes (also P13)")
fixed("P13", "838ea42", "plot_b_significant_1D failed for a list of n_ms")
fixed("P13", "559e5ad", "weighted FMD plots failed if magnitudes are missing")
fixed("P13", "4caafc5", "cumulative count plot was empty if the first magnitude is missing")
fixed("P13", "dc837c3", "plot_mags_in_time changed the lists of the caller")
fixed("P13", "c3473e6", "dots of equal or missing magnitudes had no size")
fixed("P13", "1db2125", "map of events with equal magnitudes raised in the legend")

fixed("P14", "ab86692", "declustering mixed up index labels and positions")
fixed("P14", "47c02d3", "a time cutoff of 0 days was ignored")
fixed("P01", "2a8dbe4", "binning_test with delta_x = 0 missed a bin size equal to the range")
fixed("P15", "944e706", "one time outside of the nanosecond range cut all times to seconds")
fixed("P15", "f33f777", "catalogs with times in mixed timezones failed")
fixed("P15", "da4e538", "a catalog without data could not be given its columns")
fixed("P16", "9192823", "DataFrame methods of a Catalog failed (apply, map, T, corr, melt, ...)")
fixed("P16", "0ea39ee", "isna, dropna, count, diff, ... failed for catalogs with times")
fixed("P16", "fa42277", "strip of a ForecastCatalog dropped catalog_id if it was derived from a Catalog")
fixed("P16", "71daa43", "to_csv of a Catalog ignored its formatting arguments")
fixed("P19", "95770fe", "a truncated document was read as if it were complete")
fixed("P19", "11ed6bb", "a magnitude without type made a whole document unreadable")
fixed("P19", "e57df35", "spaces within texts were lost where the reader splits its input")
fixed("P19", "e2a325c", "creation times were compared without fractions and time zone")
fixed("P19", "fe7d0b7", "magnitude versions that are no numbers made a document unreadable")
fixed("P18", "b7a34a4", "special characters in ids and types made invalid QuakeML")
fixed("P18", "bc57e16", "secondary magnitudes got lost or mixed up depending on the type's name")
fixed("P18", "17f0802", "events without preferred magnitude lost their other magnitudes")
fixed("P18", "acacbc6", "missing ids were written as 'nan' or left empty")
fixed("P18", "4e625f1", "missing types and modes were written as 'nan' or 'None'")
fixed("P18", "7ad0b37", "the number of depth phases was kept as text")
fixed("P18", "686f2f3", "missing values were written as 'None'")
fixed("P18", "f9c5225", "events without depths or magnitudes could not be read into a catalog")
fixed("P20", "325061d", "failed requests were read as an empty or shorter catalog")
fixed("P20", "e10027b", "times with a time zone were sent as local times")
fixed("P20", "8a2abda", "fractions of seconds in the limits were cut off")
fixed("P21", "61469c7", "cells without depth got several numbers or no number")
fixed("P21", "6ad9000", "a column 'cell' was removed from grids with time index")
fixed("P21", "87fe279", "bounds of the cells were aggregated by calculate_statistics")
fixed("P21", "c8a9ba5", "cells without depth were missing in the statistics")
fixed("P21", "bc8853d", "strip of a ForecastGRRateGrid dropped grid_id if derived from a GRRateGrid")
fixed("P22", "433e809", "one historical event cut all times to seconds")
fixed("P22", "64c4158", "catalogues with early events and only numbers as data failed")
fixed("P23", "ce09da6", "an existing column 'inside_polygon' was lost in cat_intersect_polygon")
fixed("P24", "1a07a94", "estimate_mc_b_stability warned with warnings switched off")
fixed("P24", "7a3b194", "estimate_mc_ks without bins to test failed unless warnings were switched off")
fixed("P24", "ee4b519", "make_more_incomplete and find_next_larger read columns by row label")
fixed("P29", "61eef34", "plot_in_space(color_dots=None) failed instead of using blue")
fixed("P11", "f2789ff", "KS distance left out magnitudes far above the expected range")
fixed("P09", "cdcdaae", "rounding of the stability range added a step or excluded an mc (also P28)")
fixed("P09", "c596c69", "rounding decided if the largest magnitude was an automatic mc (also P28)")
fixed("P09", "7568a71", "KS distances given per mc were used for another mc if the list was unsorted")
fixed("P31", "fa59cdd", "plot_mags_in_time drew steps for years given as numpy integers in 1975")
fixed("P31", "be2291a", "a completeness of type np.int64 or np.float32 failed in b_significant_1D, values_from_partitioning and two plots")
fixed("P28", "11dd265", "a KS sample whose values are equal up to rounding errors was not treated as one value")
fixed("P29", "3b16079", "the legend of plot_in_space failed with an event without magnitude")
