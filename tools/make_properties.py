"""Single source for properties.jsonl and the MANIFEST skeleton (run by hand, output committed)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                          "observe_at": list(observe), "hook_needed": None}})


N, F, A, D, B, S, V, C, PL, T = ("rdtools/normalization.py", "rdtools/filtering.py",
                                 "rdtools/aggregation.py", "rdtools/degradation.py",
                                 "rdtools/bootstrap.py", "rdtools/soiling.py",
                                 "rdtools/availability.py", "rdtools/analysis_chains.py",
                                 "rdtools/plotting.py", "rdtools/clearsky_temperature.py")

prop("C01", "Caller-owned data is never modified",
     "No public function or analysis object changes anything the caller passed in: series, "
     "frames, masks, index objects and parameter dictionaries keep their values, index, names, "
     "dtype and frequency. This holds whether the call returns, raises, is interrupted at an "
     "arbitrary point, or overlaps with other calls using the same objects.",
     ["histories", "schedules", "fault_sequences", "inputs"],
     "every public call on valid and faulty telemetry, every interruption point (fault raised at "
     "any source line), every interleaving of caller threads that share the inputs",
     "the tests never compare inputs before and after, never interrupt a call and never share "
     "inputs between threads",
     [N, F, A, D, S, V, C, PL], [("defensive copies before in-place edits",
                                  "every public function; TrendAnalysis._filter")],
     observe=["deep snapshot of every argument before and after each call"])

prop("C02", "A seeded analysis reproduces its numbers exactly",
     "With numpy's global generator put in the same state and the same inputs and settings, "
     "degradation, soiling (rate and recovery) and availability analyses return identical "
     "results. The outcome does not depend on what ran earlier in the process, on the wall "
     "clock, on the hash seed, on verbosity, or on whether the process is freshly started; "
     "circular-block resampling, which is seeded by the operating system, is the documented "
     "exception.",
     ["histories", "schedules", "configurations"],
     "every prior history of calls (successful, failed, interrupted) in the process, every wall "
     "clock, fresh or reused process, two hash seeds",
     "the tests fix one seed in one history and assert loose tolerances",
     [D, S, V, C, B], [("all randomness comes from numpy's global generator",
                        "degradation_year_on_year, _degradation_CI, SRRAnalysis._calc_monte")],
     observe=["bitwise digest of returned results"])

prop("C03", "Uncertainty outputs are coherent for every random stream",
     "Whatever the random stream, a confidence interval is ordered, widens (never narrows) when "
     "the confidence level rises on the same stream, lies inside the range its resampling can "
     "produce, and agrees with the stated percentiles of that resampling distribution; "
     "exceedance values fall as the exceedance probability rises. The central estimate of a "
     "degradation analysis and the usage information do not depend on the random stream at all.",
     ["schedules", "inputs", "configurations"],
     "every state of the random generator, every confidence level and exceedance probability, "
     "every telemetry history with missing days",
     "tests check one stream and one level",
     [D, S, B], [("percentiles of one common sample", "np.percentile over bootstrap medians")],
     observe=["returned intervals, exceedance levels, point estimates"])

prop("C04", "Analysis results depend only on current inputs and settings",
     "Running an analysis on an object gives the same result as running it on a newly made "
     "object with the same inputs and the same current settings, whatever was done with the "
     "object before: earlier analyses of either kind, changed filter settings, plots, failed "
     "attempts. A rejected settings change leaves the settings exactly as they were, and objects "
     "never influence each other's settings or results.",
     ["histories", "configurations"],
     "every sequence of analyses, settings changes (accepted and rejected), plots and failed "
     "attempts on one or several objects",
     "each test makes one object and runs one analysis on it",
     [C, V, S], [("results rebuilt from scratch on each analysis", "TrendAnalysis._sensor_preprocess"),
                 ("settings validated before they are stored", "ValidatedFilterDict")],
     state=[("results", "published results per workflow", "TrendAnalysis.results"),
            ("filter settings", "validated dictionaries", "TrendAnalysis.filter_params")],
     observe=["TrendAnalysis.results", "AvailabilityAnalysis.results", "filter_params"])

prop("C05", "A failed or interrupted run never publishes partial results",
     "When an analysis fails or is interrupted at any point, the published results of the object "
     "are exactly what they were before the attempt - or, if the failure came after publication, "
     "the complete new ones - never a mixture or a partial set. Once the fault is gone, simply running the analysis again on the same object gives the same result "
     "as if the failure had never happened.",
     ["crash_points", "fault_sequences", "histories"],
     "a fault (interrupt, memory exhaustion, library error, I/O error) at any executed source "
     "line of an analysis, repeated faults, then a clean rerun",
     "tests never make an analysis fail half-way",
     [C, V], [("results assigned once, last", "TrendAnalysis.sensor_analysis, "
               "AvailabilityAnalysis._combine_losses")],
     state=[("results", "published results", "TrendAnalysis.results, "
             "AvailabilityAnalysis.results")],
     observe=["results before, after the fault, and after the rerun"])

prop("C06", "Faults in bundled data files are transient and never give wrong answers",
     "If a bundled data file (the clipping model, the clear-sky temperature table) is missing, "
     "cannot be read, is cut off or incomplete, or the read is interrupted, the call raises instead of returning an "
     "answer, and the next call after the fault is gone succeeds with the same answer as in a "
     "fresh process. Concurrent first uses from several threads all get the correct answer, and "
     "no file handle stays open after the call.",
     ["fault_sequences", "schedules", "crash_points"],
     "open/read errors, truncation, interruption at any source line, any interleaving of "
     "concurrent first uses, any number of repeated faults",
     "tests only load the file once, successfully, from one thread",
     [F, T], [("cache published only after a complete load", "_load_xgboost_clipping_model"),
              ("data file opened per call", "get_clearsky_tamb")],
     state=[("clipping model cache", "module global", "rdtools/filtering.py")],
     observe=["returned masks/temperatures, open HDF5 handles"])

prop("C07", "Concurrent analyses do not affect each other",
     "Analyses running in different threads on separate objects, each with its own random "
     "stream, even over the same shared input series and with the same settings dictionaries, "
     "return exactly what each returns when run alone, under every interleaving.",
     ["schedules", "histories"],
     "every interleaving of two or three caller threads at source-line granularity, over "
     "normalization, filtering, aggregation, degradation, soiling, availability and the analysis "
     "chains",
     "the tests are single-threaded",
     [N, F, A, D, S, V, C], [("no mutable module-level or class-level state", "whole package")],
     observe=["per-thread results vs solo results"])

prop("C08", "Process-wide state is left as it was found",
     "A call into the library leaves process-wide state untouched, whether it returns, raises or "
     "is interrupted: warning filters, numpy error handling, pandas options, plotting defaults, "
     "environment, working directory, standard streams and the library's own default tables. "
     "Deterministic functions do not consume or reseed numpy's global random generator, and "
     "analyses that draw random numbers advance it without reseeding it.",
     ["fault_sequences", "crash_points", "histories"],
     "every public call, with and without a fault raised at any source line",
     "tests never look at global state after a call",
     [N, F, A, D, S, V, C, PL], [("context managers around state changes",
                                  "plotting, soiling")],
     observe=["snapshot of global state before and after each call"])

prop("C09", "An analysis object survives checkpoint and restart",
     "A trend-analysis object deep-copied or pickled at any point of its life, and restored in "
     "the same or a new process after a crash, carries the same settings, inputs and published "
     "results, still rejects invalid settings, continues exactly as the original would have, and "
     "shares no mutable settings with it.",
     ["crash_points", "histories"],
     "checkpoint after any prefix of a session of settings changes, analyses and failures; "
     "crash; restore; any continuation",
     "one test pickles a fresh filter dictionary",
     [C], [("serializable attributes", "TrendAnalysis, ValidatedFilterDict.__reduce__")],
     observe=["settings, results, behaviour of the restored object"])

prop("C10", "Energy is the integral of recorded power: none invented, none lost",
     "Converting power readings to energy reports, for every output interval, the integral "
     "(rectangular for interval averages, trapezoidal for instantaneous readings, after linear "
     "resampling when the output is at least as fine as the readings) of the recorded power over "
     "the parts of that interval that do not lie inside a gap longer than the permitted one "
     "(default: the median spacing). An interval with no such part, or whose end lies in a gap "
     "between stored rows, is NaN; nothing is reported before the first or after the last valid "
     "reading.",
     ["fault_sequences", "inputs", "configurations"],
     "every telemetry history (loss, duplication, reordering, crash of the logger, partitions, "
     "clock jumps, NaN readings), fixed-length output intervals, any permitted gap, time zones "
     "with DST; nanosecond timestamps",
     "tests use about ten short hand-made series, none with random gap patterns",
     [N], [("gap mask and min_count sums", "_aggregate"), ("max_timedelta enforcement",
                                                         "energy_from_power")],
     observe=["energy_from_power output"])

prop("C11", "Interpolation keeps readings and never fills a long gap",
     "Interpolating a series, or each column of a frame independently, onto target times returns "
     "the recorded value wherever a reading exists, the time-linear value between the two "
     "neighbouring valid readings when they are at most the permitted gap apart (default: twice "
     "the median spacing of that column's valid readings), and NaN inside longer gaps and outside "
     "the recorded span. The result is on exactly the requested times, independent of time "
     "zone, and a warning is given exactly when the excluded fraction exceeds the threshold.",
     ["fault_sequences", "inputs", "configurations"],
     "every telemetry history per column, every target (index or frequency, other time zone, "
     "outside the span), any permitted gap; nanosecond timestamps",
     "tests use a few fixed gap patterns",
     [N], [("gap-size backfill and masking", "_interpolate_series")],
     observe=["interpolate output and warnings"])

prop("C12", "Communication loss is not counted as production loss, real outages are",
     "For a plant-wide silence in the records, compare the meter's cumulative counter at the "
     "last reading before the silence and at its last timestamp: if it advanced as expected "
     "(within the quantile bounds of the normal-operation error for that number of daylight "
     "intervals) the outage is a communications interruption with zero loss; if it did not, the "
     "outage is real and its loss is the expected minus the metered energy; if the counter went "
     "backwards or one of the two readings is missing the loss is unknown. Outages are reported "
     "with their true extent, the loss time series and the corrected counter add up to the "
     "per-outage totals, production per period is the last minus the first corrected counter "
     "in it, and availability is production divided by production plus loss.",
     ["fault_sequences", "inputs"],
     "every sequence of grid outages, communication partitions, meter resets, night-spanning and "
     "boundary outages on simulated plants",
     "one simulated dataset per test with one outage of each kind",
     [V], [("expected-energy test", "_calc_loss_system"), ("roll-up", "_combine_losses")],
     observe=["outage_info, loss_system, energy_cumulative_corrected, results"])

prop("C13", "Inverter silence costs nothing unless the meter misses the power",
     "While at least one inverter and the meter report, an inverter whose data are missing but "
     "whose power still reaches the meter produces zero estimated loss, and an inverter that "
     "really stopped produces, at that time, a loss equal to its share (by mean power relative "
     "to the other inverters) of the plant's potential power (capped by the plant limit when one is given). No loss is ever reported when every "
     "inverter reports, at night, or as a negative number.",
     ["fault_sequences", "inputs", "configurations"],
     "every combination of inverter trips, communication partitions per inverter, unequal "
     "inverter sizes, plant limits, thresholds",
     "one dataset with one trip and one partition",
     [V], [("power comparison", "_calc_loss_subsystem")],
     observe=["loss_subsystem, reporting_mask, loss_total"])

prop("C14", "Year-on-year degradation uses exactly the valid one-year pairs",
     "The year-on-year rate is the median of the slopes of all pairs formed by a record and the "
     "latest record at least one calendar year and at most eight days more before it (a pair "
     "with a missing value is dropped), whatever records are missing, NaN or out of order; a steadily degrading plant is recovered "
     "exactly for any pattern of missing days. Reported per-pair slopes, rescaling factor and "
     "point-usage counts describe exactly those pairs, and less than two years of data or no pair "
     "is refused.",
     ["fault_sequences", "inputs", "configurations"],
     "every pattern of lost, NaN, duplicated-then-deduplicated and reordered daily, weekly or "
     "monthly records over 2-5 years including leap days and time zones",
     "tests use full series and one irregular pattern, with 1% tolerances",
     [D, "rdtools/utilities.py"], [("tolerance merge one year apart",
                                    "degradation_year_on_year")],
     observe=["rate, YoY_values, usage_of_points, renormalizing_factor"])

prop("C15", "Soiling intervals respect outages, cleanings and physical bounds",
     "The soiling analysis divides the record from first to last valid day into consecutive "
     "non-overlapping intervals that break at detected cleanings and on both sides of every "
     "data outage longer than the day scale, and at no other place; an interval fits only its "
     "own valid days. Every reported soiling rate lies within its own bounds and is never "
     "positive, every simulated profile covers the analysed days and starts each interval "
     "at a ratio of at most one, the reported ratio is the insolation-weighted percentile of "
     "those profiles, and under perfect cleaning the imposed rates are recovered.",
     ["fault_sequences", "inputs", "configurations"],
     "every pattern of missing days and outages, rain and cleaning sequence, cleaning criterion, "
     "recovery method and random stream",
     "tests use one fixed synthetic series",
     [S], [("segmentation", "SRRAnalysis._calc_daily_df"), ("fits", "_calc_result_df"),
           ("profiles", "_calc_monte")],
     observe=["soiling_interval_summary, stochastic_soiling_profiles, ratio"])

prop("C16", "The sensor workflow equals its published steps, and ignores bad readings",
     "The end-to-end sensor analysis gives exactly what a user gets by composing the public "
     "normalization, filtering, aggregation, degradation and soiling steps with the same "
     "settings (also for the clear-sky workflow with supplied clear-sky inputs). Readings that "
     "are missing or rejected by a filter have no influence on any reported number, except "
     "through the interpolation of lost neighbours and through documented data-dependent "
     "thresholds, and for a simulated plant with steady degradation and telemetry "
     "faults the true rate is recovered.",
     ["fault_sequences", "histories", "configurations"],
     "every telemetry fault history and filter configuration on simulated plants",
     "tests run one dataset with a handful of settings and compare to loose constants",
     [C, N, F, A, D, S], [("step order and masks", "TrendAnalysis._sensor_preprocess, _filter, "
                           "_aggregate")],
     observe=["TrendAnalysis.results, filter components, aggregated performance"])

prop("C17", "Filters keep exactly what their documented rule admits",
     "Every data filter returns a boolean mask on exactly its input's index whose True entries "
     "are exactly the readings the documented rule admits, and whose False entries are the "
     "others, missing readings being handled as documented: irradiance, cell temperature, "
     "normalized energy, clear-sky index and insolation limits; quantile, logic and "
     "machine-learning clipping; two-way window, Hampel and directional Tukey outlier rules with "
     "their k, threshold and tolerance settings honoured on both sides. Clipping filters find "
     "the injected clipping plateaus and do not reject days without any.",
     ["fault_sequences", "inputs", "configurations"],
     "every telemetry history (missing, stuck, duplicated, spiked readings, clipping), every "
     "setting of every filter, time zones",
     "tests use a few hand-made values with default settings",
     [F], [("filter functions", "rdtools/filtering.py")],
     observe=["returned masks"])

prop("C18", "Regression rates are the least-squares trend of the valid records",
     "The OLS rate is slope over intercept of the least-squares line through all valid records "
     "(time in 365-day years from the first record), whatever records are missing; the classical "
     "rate is the same for the centred 365-day moving mean where half a year exists on both "
     "sides, and records with missing data are refused. Reported slope, intercept, RMSE, "
     "standard errors, moving mean and Mann-Kendall trend (tie-corrected, 5 % level) describe "
     "exactly that fit, also for constant records and records with repeated values, and a "
     "steady plant's rate is recovered.",
     ["fault_sequences", "inputs", "configurations"],
     "every pattern of lost, NaN, stuck and duplicated records, daily, weekly, monthly and "
     "irregular, any time zone",
     "tests compare one synthetic record with loose tolerances and never a constant or tied one",
     [D], [("regressions", "degradation_ols, degradation_classical_decomposition"),
           ("trend test", "_mk_test")],
     observe=["rate and calc_info"])

prop("C19", "Clear-sky temperature follows the bundled table at every site and time",
     "For any site and any set of time stamps (regular or with lost, duplicated and shifted ones, "
     "any time zone), the clear-sky ambient temperature at a stamp is 0.35 x (day - night) x "
     "cos(2 pi (local hour + 8 + longitude/15 - UTC offset)/24) + (day + night)/2, where day and "
     "night are the monthly table values of the nearest grid cell (longitude wraps around, the "
     "last row reaches the south pole) assigned to each calendar day, averaged with the Gaussian "
     "window and interpolated linearly in time between the days' first instants. Other requested "
     "stamps have no influence, daylight-saving changes do not disturb the season, and NaN (with "
     "a warning) is returned exactly where the table has no value.",
     ["inputs", "fault_sequences", "configurations"],
     "every site including poles and date line, every logger history, every time zone including "
     "those whose clock changes at midnight or by half an hour, tables with holes",
     "the tests use two sites and need a data file that is not in the checkout",
     [T], [("table lookup, smoothing, interpolation", "get_clearsky_tamb"),
           ("cell value", "_get_pixel_value"), ("daily wave", "_get_temperature")],
     observe=["returned series and warnings"])

prop("C20", "CODS combines exactly its usable fits, whatever fits fail",
     "The combined degradation and soiling analysis fits each of the 16 parameter alternatives "
     "once; fits that raise, or whose residuals are not stationary, contribute nothing and do not "
     "stop the analysis unless more than half of the fits are not stationary (refused) or none is "
     "usable. Each usable fit contributes reps/16 (rounded up) realisations built from its model "
     "and circular blocks of its own residuals. Reported degradation, soiling loss, soiling ratio "
     "and rate estimates and cleaning probabilities are the weighted (1/RMSE/(1+fraction of "
     "SR=1)) combination of the usable realisations, bounds are their quantiles, the best "
     "initial fit provides the soiling ratio (clipped to 0..1), and total model = soiling ratio x "
     "season x trend x residual shift. With too small a soiling signal in most fits the best fit "
     "and the year-on-year rate are reported with zero loss. Every single decomposition's "
     "components, residuals, loss (in percent) and RMSE are consistent with each other.",
     ["fault_sequences", "inputs", "configurations"],
     "every pattern of failing, non-stationary and signal-less fits in both stages, records with "
     "outages, all settings",
     "the tests run one record in which all fits succeed, with tolerances of 0.5",
     [S, B], [("combination", "CODSAnalysis.run_bootstrap, soiling_cods"),
              ("decomposition", "CODSAnalysis.iterative_signal_decomposition"),
              ("resampling", "_make_time_series_bootstrap_samples, _make_seasonal_samples")],
     observe=["returned estimates and result_df"])

prop("C21", "Normalized energy is measured over expected energy at any granularity",
     "For every mix of meter and model sampling periods and every pattern of missing readings, "
     "normalization by expected power or PVWatts gives, per meter interval, the measured energy "
     "divided by the integral of the expected power over the same interval, together with the "
     "integral of the irradiance (a model recorded less often than the meter is first interpolated "
     "to its times; intervals in gaps are NaN; results are on the union of the intervals). "
     "Aggregation gives the insolation-weighted mean of the points that have both values, per "
     "period, and NaN without any. Irradiance rescaling returns the model times one factor, the "
     "least-squares factor over the readings it classes as clear, is not influenced by missing "
     "readings, or raises ConvergenceError.",
     ["inputs", "fault_sequences", "configurations"],
     "every link and logger fault on either channel, period ratios from 6:1 to 1:4, shifted starts, "
     "time zones, energy or power input",
     "the tests use complete records of a few hours at two granularities",
     [N, A], [("normalization", "normalize_with_expected_power, normalize_with_pvwatts, "
               "pvwatts_dc_power"), ("weights", "aggregation_insol"),
              ("rescaling", "irradiance_rescale")],
     observe=["returned series"])

prop("C22", "Figures draw exactly the published results",
     "A figure asked for from an analysis object, or from a result, shows that result and nothing "
     "else, whatever analyses, settings changes, interrupted runs and other figures came before: "
     "every point, profile, histogram bar, trend and rate line and number in it is the published "
     "value of the workflow it was asked for, at its own time, also for short or gappy records and "
     "for results on irregular or monthly data; points are coloured by the number of pairs they "
     "take part in; a filter plot shows every reading under its own mask value; the availability "
     "figure has one curve and one error bar, with the published bounds, per outage. Drawing "
     "changes neither the results nor any other open figure, and a figure of results that do not "
     "exist is refused.",
     ["fault_sequences", "inputs", "configurations"],
     "every sequence of analyses, settings changes, faults and figures; results of any length; "
     "other figures open; figures drawn onto an existing one",
     "the tests draw each figure once, right after the analysis, and check its type",
     [PL, C, V], [("figures", "degradation_summary_plots, degradation_timeseries_plot, "
                  "soiling_monte_carlo_plot, soiling_interval_plot, soiling_rate_histogram, "
                  "tune_filter_plot, availability_summary_plots"),
                 ("methods", "TrendAnalysis.plot_*, AvailabilityAnalysis.plot")],
     observe=["artists of the returned figure", "published results before and after"])


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")


if __name__ == "__main__":
    main()
