"""writes /verif/properties.jsonl"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
IND = "tti/indicators/"


def p(id, title, statement, over, text, why, files, mech, **kw):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if "state" in kw:
        a["state"] = [{"name": n, "meaning": m} for n, m in kw["state"]]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


SIM = ["tti/utils/trading_simulation.py"]
WSIM = "The tests run a handful of fixed price files with the signals one indicator happens to give; the claim is over every price path, every signal sequence and every number of rounds."
SST = [("portfolio array", "one row per day: position kind, open/closed status, exposure taken"),
       ("simulation table", "signal, action, stock value, exposure, portfolio value, earnings, balance per day")]
p("S01", "Simulation ledger balances on every day",
  "After every simulated day the balance equals the accumulated earnings plus the portfolio value, the portfolio value equals the day's price times (open long minus open short positions), and earnings grow exactly by price minus entry price for each long closed that day and by entry price minus price for each short closed that day. The reported stock value of the day is that day's close and the first day starts from zero exposure, portfolio value, earnings and balance.",
  ["inputs", "histories"], "every positive close series, every signal sequence, every exposure limit and short factor, every day",
  WSIM, SIM, [("round", "TradingSimulation.runSimulationRound"), ("close", "TradingSimulation._closeOpenPositions"), ("open", "TradingSimulation._processSignal"), ("value", "TradingSimulation._calculatePortfolioValue")], state=SST)
p("S02", "Exposure is the sum over open positions and never passes the limit",
  "On every day the reported exposure equals the sum, over the positions open at the end of that day, of the entry price (long) or the short factor times the entry price (short). When an exposure limit is given, the exposure never exceeds it, and a buy or sell signal after the first day is ignored (no position opened) exactly when opening it would exceed the limit; without a limit no signal after the first day is ignored.",
  ["inputs", "histories"], "every positive close series, signal sequence, limit (or none) and short factor >= 1, every day",
  WSIM, SIM, [("limit", "TradingSimulation._processSignal"), ("release", "TradingSimulation._closeOpenPositions")], state=SST)
p("S03", "Position lifecycle: open once, close when profitable, never reopen",
  "Each day after the first opens at most one position: long on buy, short on sell, none on hold or when the limit forbids it, and nothing is opened on the first day. An open long is closed on the first later day whose price is strictly above its entry price and an open short on the first later day whose price is strictly below it; no position is closed on any other day and a closed position never changes again.",
  ["inputs", "histories"], "every positive close series, signal sequence, limit and short factor, every position and every later day",
  WSIM, SIM, [("round", "TradingSimulation.runSimulationRound"), ("close", "TradingSimulation._closeOpenPositions"), ("open", "TradingSimulation._processSignal")], state=SST)
p("S04", "Simulation statistics agree with the simulation table",
  "The reported statistics are a function of the simulation table and the final positions: number of days, counts of buy and sell signals, counts of buy and sell signals with no position opened, numbers of still open long and short positions, and the last day's stock value, exposure, portfolio value, earnings and balance rounded to two decimals.",
  ["inputs", "histories"], "every complete simulation: any number of days, prices, signals, limit and short factor",
  WSIM, SIM, [("statistics", "TradingSimulation._calculateSimulationStatistics"), ("close", "TradingSimulation.closeSimulation")], state=SST)
p("S05", "Simulation arguments are validated completely",
  "A simulation starts only if close prices are a valid non-empty numeric table with a close column whose dates are exactly the indicator's dates, the exposure limit is none or a number greater than zero and the short factor is a number of at least one. Invalid close values raise the simulation-data error, a limit or factor that is not a number raises the wrong-type error and one outside its range (including a not-a-number value) raises the wrong-value error.",
  ["inputs", "configurations"], "every value of the three arguments",
  "Tests try a few bad values per argument; acceptance must be characterised for all values.",
  SIM + ["tti/utils/data_validation.py"], [("validation", "TradingSimulation._validateSimulationArguments")])
p("S06", "Simulation replays the indicator day by day without look-ahead",
  "The signal used for simulated day i is the signal the indicator gives when its input and indicator data are cut to the dates up to and including day i, each day is processed exactly once and in date order, and the result covers all dates of the indicator's data. After a simulation the indicator holds the same input and indicator data as before.",
  ["inputs", "histories"], "every indicator, every data set and every day",
  "Tests compare one final table; cutting one row too many or too few, skipping a round or leaving the indicator truncated is only visible on other histories.",
  [IND + "_technical_indicator.py"] + SIM, [("driver", "TechnicalIndicator.getTiSimulation")])

p("D01", "Input data is accepted or rejected as documented and normalised",
  "Input data is accepted exactly when it is a non-empty data frame with a date index that holds every column the indicator needs (column name matching ignores case) with numeric type; otherwise a type error or value error of the documented kind is raised. The accepted data is reduced to the required columns and sorted by date ascending, every row keeping its own values.",
  ["inputs"], "every input object, every column naming and order, every row order, every numeric type",
  "Tests hold a few malformed frames and mostly sorted, exactly named inputs.",
  ["tti/utils/data_validation.py"], [("validation", "validateInputData")])
p("D02", "Missing values are filled forward first and then backward, only if asked",
  "With filling on, every missing value becomes the latest earlier known value of the same column in date order, or the earliest later known value when there is no earlier one; known values are unchanged, and a column that is all missing stays so. With filling off no value is changed.",
  ["inputs"], "every numeric frame, every missing-value pattern, every row order",
  "Tests use one pattern of gaps; order of the passes, sorting before filling and cross-column leaks depend on the pattern.",
  ["tti/utils/data_preprocessing.py", "tti/utils/data_validation.py"], [("fill", "fillMissingValues"), ("switch", "validateInputData")])
p("D03", "The caller's data is never modified",
  "Constructing any indicator, querying it, drawing its graph or running a simulation leaves the caller's input data frame and close values frame exactly as they were: values, column names, column order, row order and index.",
  ["inputs", "histories"], "every indicator, every input frame (any column case and order, unsorted rows, gaps) and every sequence of calls",
  "Tests compare outputs and almost never the input frame afterwards.",
  ["tti/utils/data_validation.py", "tti/utils/data_preprocessing.py", "tti/utils/trading_simulation.py", IND + "*.py"],
  [("validation", "validateInputData"), ("all indicators", "_calculateTi")])
p("D04", "Results do not depend on row order, column order, case or extra columns",
  "Indicator values and trading signals depend only on the values of the required columns by date: permuting rows, permuting columns, changing the case of column names or adding further columns changes nothing.",
  ["inputs"], "every indicator and every permutation of rows and columns, any letter case, any extra columns",
  "Tests feed one canonical column order.",
  ["tti/utils/data_validation.py", IND + "*.py"], [("validation", "validateInputData"), ("position based column access", "_calculateTi / getTiSignal")])

WV = "Tests compare a few price files at fixed parameters against stored tables; the formula has to hold for every data set, length, parameter value and row, including ties, zero denominators and the warm-up rows."
def v(id, title, what, inds, extra=""):
    p(id, title,
      "For complete input data every row of the indicator equals its documented formula, rounded to four decimals, for " + what + "." + extra,
      ["inputs", "configurations"], "every complete numeric input with positive prices and non-negative volume, every admissible parameter value, every row",
      WV, [IND + i for i in inds], [("calculation", i[1:-3] + "._calculateTi") for i in inds])

v("V01", "Averages, bands and smoothed price lines equal their formulas",
  "the moving average in all its types, double and triple exponential averages, Wilder's smoothing, moving average convergence-divergence, price oscillator, detrended price oscillator, envelopes, Bollinger bands, standard deviation and price channel",
  ["_moving_average.py", "_double_exponential_moving_average.py", "_triple_exponential_moving_average.py", "_wilders_smoothing.py", "_moving_average_convergence_divergence.py", "_price_oscillator.py", "_detrended_price_oscillator.py", "_envelopes.py", "_bollinger_bands.py", "_standard_deviation.py", "_price_channel.py"],
  " Rows without enough history are missing values where the formula needs a full window.")
v("V02", "Momentum oscillators equal their formulas",
  "momentum, price and volume rate of change, relative strength and relative momentum index, Chande momentum oscillator, intraday momentum index, commodity channel index, stochastic oscillator, stochastic momentum index, Williams %R, ultimate oscillator, Qstick, vertical horizontal filter, relative volatility index, range indicator and performance",
  ["_momentum.py", "_price_rate_of_change.py", "_volume_rate_of_change.py", "_relative_strength_index.py", "_relative_momentum_index.py", "_chande_momentum_oscillator.py", "_intraday_momentum_index.py", "_commodity_channel_index.py", "_stochastic_oscillator.py", "_stochastic_momentum_index.py", "_williams_r.py", "_ultimate_oscillator.py", "_qstick.py", "_vertical_horizontal_filter.py", "_relative_volatility_index.py", "_range_indicator.py", "_performance.py"],
  " Rows without enough history are missing values where the formula needs a full window.")
v("V03", "Volume and money-flow indicators equal their formulas",
  "accumulation distribution line, Chaikin money flow, Chaikin oscillator, ease of movement, Klinger oscillator, market facilitation index, negative and positive volume index, on balance volume, price and volume trend, volume oscillator and Williams accumulation distribution",
  ["_accumulation_distribution_line.py", "_chaikin_money_flow.py", "_chaikin_oscillator.py", "_ease_of_movement.py", "_klinger_oscillator.py", "_market_facilitation_index.py", "_negative_volume_index.py", "_positive_volume_index.py", "_on_balance_volume.py", "_price_and_volume_trend.py", "_volume_oscillator.py", "_williams_accumulation_distribution.py"],
  " Cumulative indicators start from their documented first value and carry exactly the documented increment on every later row.")
v("V04", "Trend, volatility and price-transform indicators equal their formulas",
  "average true range, directional movement index, mass index, parabolic SAR, swing index, Ichimoku cloud, Chaikin's volatility, median price, typical price, weighted close and Fibonacci retracement",
  ["_average_true_range.py", "_directional_movement_index.py", "_mass_index.py", "_parabolic_sar.py", "_swing_index.py", "_ichimoku_cloud.py", "_volatility_chaikins.py", "_median_price.py", "_typical_price.py", "_weighted_close.py", "_fibonacci_retracement.py"],
  " Recursive indicators follow the documented recurrence from the documented first value on every later row.")
v("V05", "Regression-based indicators equal their formulas",
  "linear regression indicator, linear regression slope, time series forecast, forecast oscillator, projection bands and projection oscillator, where every window's line is the least-squares line over exactly the last period rows",
  ["_linear_regression_indicator.py", "_linear_regression_slope.py", "_time_series_forecast.py", "_forecast_oscillator.py", "_projection_bands.py", "_projection_oscillator.py"])

p("R01", "Bounded indicators stay in range and bands stay ordered",
  "Relative strength, relative momentum, intraday momentum, stochastic, ultimate, projection, range, relative volatility and directional indices lie in [0, 100], Chande momentum and stochastic momentum in [-100, 100], Williams %R in [-100, 0], Chaikin money flow in [-1, 1] and vertical horizontal filter in [0, 1]; volatility measures are not negative. Upper bands are never below middle bands and these never below lower bands, and highest-price channels never lie below lowest-price ones, wherever defined.",
  ["inputs", "configurations"], "every complete consistent bar series (low <= open, close <= high), every admissible parameter, every defined row; for the projection oscillator, prices of at most four decimals (its bands are rounded before the price is related to them)",
  "No test states a range; range violations show up only on flat, monotone or spiky data.",
  [IND + "*.py"], [("calculations", "_calculateTi")])
p("C01", "Indicator values never depend on later data",
  "For complete input data the value of an indicator at a date is a function of the input rows up to that date only: changing, adding or removing later rows leaves every earlier value unchanged. Exempt are only the detrended price oscillator and Fibonacci retracement, which are defined over a centred or whole range, and the first row of the parabolic SAR, which is seeded from the first two days.",
  ["inputs", "histories"], "every indicator, every parameter, every input and every cut date",
  "Tests evaluate whole files; a one-row look-ahead still matches tables generated from the same code.",
  [IND + "*.py"], [("calculations", "_calculateTi")])

p("G01", "A trading signal is always produced and well formed",
  "For every indicator that was constructed successfully, asking for the trading signal returns exactly one of (hold, 0), (buy, -1), (sell, 1) and never raises, for the full data and for every shorter history a simulation cuts from it.",
  ["inputs", "histories", "configurations"], "every indicator, every valid input of one row or more, every parameter, every truncation length",
  "Tests call it on long regular files; very short, flat or undefined histories are where it fails.",
  [IND + "*.py", "tti/utils/constants.py"], [("signals", "getTiSignal")])
WG = "Tests check a few stored signals; each rule must hold for every pair of latest values, with equality and missing values included."
def g(id, title, what, inds):
    p(id, title,
      "The trading signal is exactly the documented rule applied to the latest rows of the indicator and its input, with strict inequalities where documented and hold in every other case, for " + what + ".",
      ["inputs", "histories"], "every content of the indicator data and input data, any history length, every parameter",
      WG, [IND + i for i in inds], [("signal rule", i[1:-3] + ".getTiSignal") for i in inds])
g("G02", "Signals of averages, bands and price lines follow the documented rule",
  "moving averages, exponential averages, Wilder's smoothing, MACD, price and detrended price oscillator, envelopes, Bollinger bands, standard deviation, price channel and the regression-based indicators",
  ["_moving_average.py", "_double_exponential_moving_average.py", "_triple_exponential_moving_average.py", "_wilders_smoothing.py", "_moving_average_convergence_divergence.py", "_price_oscillator.py", "_detrended_price_oscillator.py", "_envelopes.py", "_bollinger_bands.py", "_standard_deviation.py", "_price_channel.py", "_linear_regression_indicator.py", "_linear_regression_slope.py", "_time_series_forecast.py", "_forecast_oscillator.py", "_projection_bands.py", "_projection_oscillator.py"])
g("G03", "Signals of momentum oscillators follow the documented rule",
  "momentum, rates of change, relative strength, relative momentum, Chande momentum, intraday momentum, commodity channel, stochastic, stochastic momentum, Williams %R, ultimate oscillator, Qstick, vertical horizontal filter, relative volatility, range indicator and performance",
  ["_momentum.py", "_price_rate_of_change.py", "_volume_rate_of_change.py", "_relative_strength_index.py", "_relative_momentum_index.py", "_chande_momentum_oscillator.py", "_intraday_momentum_index.py", "_commodity_channel_index.py", "_stochastic_oscillator.py", "_stochastic_momentum_index.py", "_williams_r.py", "_ultimate_oscillator.py", "_qstick.py", "_vertical_horizontal_filter.py", "_relative_volatility_index.py", "_range_indicator.py", "_performance.py"])
g("G04", "Signals of volume, trend and volatility indicators follow the documented rule",
  "the volume and money-flow indicators, average true range, directional movement, mass index, parabolic SAR, swing index, Ichimoku cloud, Chaikin's volatility, price transforms and Fibonacci retracement",
  ["_accumulation_distribution_line.py", "_chaikin_money_flow.py", "_chaikin_oscillator.py", "_ease_of_movement.py", "_klinger_oscillator.py", "_market_facilitation_index.py", "_negative_volume_index.py", "_positive_volume_index.py", "_on_balance_volume.py", "_price_and_volume_trend.py", "_volume_oscillator.py", "_williams_accumulation_distribution.py", "_average_true_range.py", "_directional_movement_index.py", "_mass_index.py", "_parabolic_sar.py", "_swing_index.py", "_ichimoku_cloud.py", "_volatility_chaikins.py", "_median_price.py", "_typical_price.py", "_weighted_close.py", "_fibonacci_retracement.py"])

p("P01", "Indicator parameters are accepted exactly in their documented range",
  "Every indicator constructor accepts exactly the documented parameter values: a value of a wrong type raises the wrong-type error, a value of the right type outside the documented range (sign, minimum, ordering between periods, allowed names) raises the wrong-value error, and every documented value is accepted and used unchanged, and an omitted parameter takes its documented default.",
  ["inputs", "configurations"], "every parameter of every indicator, all integers, all floats, other types",
  "Tests try one or two bad values per parameter, never the exact boundary for all of them.",
  [IND + "*.py", "tti/utils/exceptions.py"], [("constructors", "__init__")])
p("M01", "Too short data is refused exactly below the documented minimum",
  "Calculating an indicator on fewer rows than it needs raises the not-enough-data error, and with at least that many rows it never does; then the result has one row per input date, in date order, with exactly the documented columns.",
  ["inputs", "configurations"], "every number of rows, every parameter value, every input content, every indicator",
  "Tests check one short frame per indicator, usually one row, not the boundary.",
  [IND + "*.py", "tti/utils/exceptions.py"], [("row count check", "_calculateTi")])
p("Q01", "Value queries return the row of the requested date",
  "Asking for the value without a date returns the last row of the indicator data, with a date contained in the data returns that date's row with one entry per indicator column in column order, and with any other date returns nothing; it never raises.",
  ["inputs"], "every indicator, every data content, every requested date string or none",
  "Tests ask for two dates of one file.",
  [IND + "_technical_indicator.py"], [("query", "TechnicalIndicator.getTiValue")])
p("U01", "Queries are pure: any order and repetition gives the same answers",
  "Asking for data, value, signal or graph changes neither the indicator's data nor its input, so any sequence of such calls in any order and number gives the same answers as a fresh indicator.",
  ["inputs", "histories"], "every indicator, every data content, every sequence of query calls",
  "Tests call each query once per object.",
  [IND + "*.py", "tti/utils/plot.py"], [("queries", "getTiData, getTiValue, getTiSignal, getTiGraph")])
p("H01", "Graphs show exactly the indicator's and the named input series",
  "An indicator's graph plots, against the data's dates, every indicator column and exactly its graph input columns as named in the properties table (the close price for most indicators; volume, high and low, or a smoothed close for a few; none for ease of movement and Chaikin's volatility), each series once, with unmodified values, in one panel (price overlays) or in two (input above, indicator below).",
  ["inputs"], "every indicator and every data content",
  "Tests only check that a plot object comes back.",
  [IND + "_technical_indicator.py", "tti/utils/plot.py", IND + "properties/indicators_properties.py"], [("graph", "TechnicalIndicator.getTiGraph"), ("plot", "linesGraph")])

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
