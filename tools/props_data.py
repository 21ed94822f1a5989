GEN = "stateful random testing against a reference model, with shrinking"
INP = "property-based testing over generated inputs against an independent oracle, with shrinking"
SCH = "randomised concurrent schedules against a history oracle"
NOTE = "Sampled, not exhaustive: holds on every generated case of the run. Trusts the reference model in /verif and the Rust toolchain."

# ---------------------------------------------------------------- trading-engine
p("B01", "te", "Orders match in price-time priority and conserve quantity",
  "For every history of limit, market, cancel, reduce and amend requests, an incoming order trades only against the opposite side, best price first and within a price oldest order first, at the resting order's price, never through its limit price, and a limit order's untraded remainder then rests behind the orders already at its price (an order without quantity never rests); a reduction at a price takes from its newest orders, an amend of quantity only keeps the order's place, an amend of price re-enters it as a new limit order. The reported execution (quantity traded at each price in order, average and last price, remaining quantity) is exactly that, and quantity traded plus resting plus cancelled always equals quantity submitted.",
  ["inputs", "histories"], "every finite sequence of order requests with any prices, sizes and ids (ids unique among live orders)",
  "The unit tests replay a handful of fixed books; priority and conservation are claims about every interleaving of adds, partial fills, amends and cancels.",
  [TE+"orderbook/mod.rs", TE+"orderbook/half_book.rs", TE+"orderbook/level.rs", TE+"data/order.rs", TE+"types/base.rs"],
  [("limit/market matching loop", TE+"orderbook/half_book.rs"), ("FIFO queue per level", TE+"orderbook/level.rs")],
  ["OrderBook::process_limit_order / process_market_order results", "resting orders after each request", "a final drain order by order"], GEN, NOTE)
p("B02", "te", "Book aggregates and lookups always agree with the resting orders",
  "After every request in any history the best bid and ask, each price level's total and number of orders, each side's total, the level view and the lookup of an order or its price by id are exactly those computed from the set of resting orders; no empty level is shown. Cancelling, resizing or amending an order that is not resting has no effect and reports so.",
  ["inputs", "histories"], "every finite sequence of order requests, including requests naming unknown ids, price moves and resizes to zero",
  "Cached totals, best prices and id lookup are updated incrementally in many branches; a stale cache only shows after particular sequences (last order of the best level cancelled, partial fill then amend, ...).",
  [TE+"orderbook/mod.rs", TE+"orderbook/half_book.rs", TE+"orderbook/level.rs"],
  [("incremental best price / totals / id cache", TE+"orderbook/half_book.rs")],
  ["best_price, totals, level snapshots, order lookup after each request"], GEN, NOTE)
p("B03", "te", "Applying a market depth snapshot makes the book show exactly that depth",
  "Whatever depth a snapshot-driven book showed before (also after market orders traded against it), once an exchange depth snapshot, with or without an accompanying trade, is applied each side shows exactly the price levels with non-zero quantity among the snapshot's effective levels, with those quantities, best prices and totals. A snapshot for another instrument is refused and leaves the book unchanged.",
  ["inputs", "histories"], "every sequence of valid depth snapshots, of any number of visible levels, applied to one book",
  "Tests apply one or two recorded snapshots; stale levels, padding levels and side totals depend on what consecutive snapshots differ in.",
  [TE+"orderbook/mod.rs", TE+"orderbook/half_book.rs", TE+"data/quote.rs", TE+"data/trade_quote.rs"],
  [("snapshot application", TE+"orderbook/half_book.rs"), ("instrument id check", TE+"orderbook/mod.rs")],
  ["depth views and totals after update_from_quote_snapshot / update_from_trade_quote_snapshot"], GEN, NOTE)
p("B04", "te", "A depth change decomposed into orders replays to the same book",
  "When the difference between the current book and a new depth snapshot is decomposed into order messages, the book ends up showing exactly the new snapshot, there is exactly one message per price level whose quantity changed, every added order under an identifier of its own, and replaying the messages in order on any book that showed the old depth yields the same new depth.",
  ["inputs", "histories"], "every sequence of depth snapshots",
  "The tests replay a few fixed transitions; the guarantee is about every pair of consecutive snapshots (levels appearing, disappearing, shrinking, growing on both sides).",
  [TE+"orderbook/mod.rs", TE+"orderbook/half_book.rs"],
  [("decomposed orders with update", TE+"orderbook/half_book.rs")],
  ["depth of the updated book and of a replica driven by the produced messages"], GEN, NOTE)
p("B05", "te", "A printed book shows its best levels, exactly as they are",
  "Whatever history a book has, its printed form lists every level of both sides exactly once, highest price first, with the level's price, number of resting orders and total quantity; a side printed up to a depth shows that many levels, and they are the best ones.",
  ["inputs", "histories"], "every history of requests on one book, every depth",
  "Tests print full books or none; which levels a limited depth drops needs a side with more levels than the depth.",
  [TE+"orderbook/mod.rs", TE+"orderbook/half_book.rs"],
  [("printing", TE+"orderbook/half_book.rs")],
  ["printed tables"], GEN, NOTE)
p("K01", "te", "Derivative quote messages decode to exactly what their bytes say",
  "Every well-formed exchange derivative quote message (5 and 10 level layouts, every product price format) decodes to the instrument, time, and per-level prices, quantities and order counts written at their documented positions, limited to the requested number of levels; prices round-trip to the decimal written, including negative ones.",
  ["inputs"], "every field value representable in the fixed-width layouts, every product class, every level cut",
  "Tests decode a few captured messages; offsets, signs, widths and level strides are only exercised for the values those contain.",
  [TE+"data/krx/derivative_quote.rs", TE+"data/krx/unroll_macro.rs", TE+"data/krx/krx_converter.rs", TE+"utils/numeric_converter.rs"],
  [("fixed-offset parsing macros", TE+"data/krx/unroll_macro.rs"), ("converter selection by product code", TE+"data/krx/krx_converter.rs")],
  ["decoded quote snapshots"], INP, NOTE)
p("K02", "te", "Trade and trade-with-quote messages decode to exactly what their bytes say",
  "Every well-formed exchange trade message, with or without an accompanying quote of 5 or 10 levels, decodes to the instrument, time, trade price, trade quantity, trade side, cumulative quantity and per-level book fields written at their documented positions, limited to the requested number of levels.",
  ["inputs"], "every field value representable in the fixed-width layouts, every product class, every level cut",
  "Tests decode a few captured messages and only some layouts.",
  [TE+"data/krx/derivative_trade.rs", TE+"data/krx/unroll_macro.rs", TE+"data/krx/krx_converter.rs"],
  [("fixed-offset parsing", TE+"data/krx/derivative_trade.rs")],
  ["decoded trade and trade-quote snapshots"], INP, NOTE)
p("K03", "te", "Stock quote messages decode to exactly what their bytes say",
  "Every well-formed exchange stock quote message, with or without liquidity-provider quantities, decodes to the instrument, time and ten levels of prices, quantities (and liquidity-provider quantities) written at their documented positions (an 11-character price whose two leading characters are unused zeros), limited to the requested number of levels.",
  ["inputs"], "every field value representable in the fixed-width layout, every level cut",
  "The repository's own tests for this layout are placeholders.",
  [TE+"data/krx/stock_quote.rs", TE+"data/krx/unroll_macro.rs", TE+"data/krx/krx_converter.rs"],
  [("fixed-offset parsing", TE+"data/krx/stock_quote.rs")],
  ["decoded stock quote snapshots"], INP, NOTE)
p("K04", "te", "Decoding into a reused buffer equals decoding afresh",
  "Decoding any message into a caller-supplied buffer yields the same observable result as decoding it afresh, whatever messages the buffer received before; nothing of an earlier message survives. Two levels compare equal exactly when their prices, quantities, order counts and liquidity provider quantities are equal.",
  ["inputs", "histories"], "every sequence of well-formed messages of the kinds one buffer accepts, with any level cut per message",
  "Stale-data bugs need a specific predecessor message; tests decode into fresh buffers.",
  [TE+"data/krx/derivative_quote.rs", TE+"data/krx/derivative_trade.rs", TE+"data/krx/stock_quote.rs", TE+"data/quote.rs", TE+"data/trade_quote.rs"],
  [("buffer decoding entry points", TE+"data/krx/derivative_quote.rs")],
  ["buffer contents, derived market measures"], GEN, NOTE)
p("K05", "te", "Malformed messages are refused with an error and never crash a decoder",
  "For every byte string, every message decoder either returns a decoded value or an error: it never panics, hangs or reads beyond the message, and a message whose length, terminator or instrument code is invalid is always refused. A requested number of levels beyond what the layout carries is refused.",
  ["inputs"], "every byte string of any length, every decoder",
  "Crash-freedom is a statement over all byte strings; the tests try one or two.",
  [TE+"data/checker.rs", TE+"data/krx/derivative_quote.rs", TE+"data/krx/derivative_trade.rs", TE+"data/krx/stock_quote.rs", TE+"types/id/isin_code.rs"],
  [("payload validity check", TE+"data/checker.rs")],
  ["Ok / Err / panic of each decoder"], "structured mutation fuzzing of well-formed messages with a crash oracle and must-refuse rule", NOTE)
p("K06", "te", "Fixed-width number conversion equals exact decimal arithmetic",
  "For every supported number layout and every digit string of that width, parsing yields exactly the decimal number written (sign, integer part and fraction at the documented decimal point), from plain digit strings of every supported length too, without reading beyond the characters given; converting back to a real price gives the double nearest to that decimal.",
  ["inputs"], "every width/decimal-point/sign configuration offered and every digit string of that width",
  "The branch-free digit folding treats each width class separately; tests try a few strings per class.",
  [TE+"utils/numeric_converter.rs", TE+"data/krx/krx_converter.rs"],
  [("SWAR digit folding", TE+"utils/numeric_converter.rs")],
  ["parsed integers and floats"], INP, NOTE)
p("N01", "te", "Timestamps convert consistently between wire, epoch and calendar forms",
  "A local wall-clock time on the wire (nine hours ahead of UTC) converts to the instant it denotes, counted from the configured base date; when the clock of successive messages (at most nine hours apart) crosses midnight the instants keep moving forward by the time that elapsed; a message that comes late, from earlier on the day of the one before it, keeps its own time on that day and does not move those after it; and converting an instant to calendar date and time components agrees with the civil calendar for every instant and offset.",
  ["inputs", "histories"], "every wire time, every sequence of wire times over midnight, with late ones, every instant from 1970 to 2200",
  "Tests check a few fixed instants; leap years, month ends, midnight rollover and offsets are calendar-wide claims.",
  [TE+"utils/timer.rs", TE+"types/timestamp.rs"],
  [("wire clock rollover", TE+"types/timestamp.rs"), ("civil-from-days arithmetic", TE+"utils/timer.rs")],
  ["converted instants and date/time components"], INP, NOTE)
p("K07", "te", "Transaction codes route to the one decoder that takes the message",
  "The interface listed for a KRX transaction code is the one whose message layout the code stands for: quotes (B6), trades (A3) and trades with quotes (G7) of derivatives, ten levels for stock futures and stock options and five for every other product, and securities quotes with and without liquidity providers; codes outside the documented set have none. A well-formed message with that code decodes through the decoder of that name and through no other.",
  ["inputs"], "every transaction code of the documented families and their neighbours, every well-formed message with it",
  "A code listed under a neighbouring interface misreads every message of that product; the test looks up one code.",
  [TE+"data/krx/interface_map.rs", TE+"data/krx/derivative_quote.rs", TE+"data/krx/derivative_trade.rs", TE+"data/krx/stock_quote.rs", TE+"data/checker.rs"],
  [("code to interface table", TE+"data/krx/interface_map.rs"), ("length and terminator check", TE+"data/checker.rs")],
  ["interface name per code", "decoders' results"], INP, NOTE)
p("K08", "te", "Orders, market data and number formats survive storage unchanged",
  "Order messages, book levels, time stamps, instrument descriptions, codes of sides, data types and trade types, and number formats come back from JSON (or from their numeric code) as they were, codes outside the documented ones are refused, and a number converter read back decodes every text as before. A written quote or trade with quote holds its identifier, both times, every level and its optional figures. Two levels are equal exactly when price, quantity, order count and provider quantity are.",
  ["inputs"], "every value of these types (JSON)",
  "Optional, negative and extreme fields, and formats with signs, points and unused characters, are in no test; no test reads back what it wrote.",
  [TE+"data/order.rs", TE+"data/quote.rs", TE+"types/base.rs", TE+"types/enums.rs", TE+"utils/numeric_converter.rs", TE+"utils/lazy_string.rs", TE+"types/inst_info.rs"],
  [("written and read", TE+"data/order.rs"), ("read converters", TE+"utils/numeric_converter.rs")], ["values read back and what they decode"], "round-trip property-based testing", NOTE)
p("X01", "te", "UDP messages and responses arrive unchanged",
  "A message sent through the UDP client arrives at the server as one datagram with exactly the message's bytes, from the client's address; responses of up to 1024 bytes are received in the order in which they were sent, each exactly as sent.",
  ["inputs", "histories"], "every text of up to 8000 bytes, every response of up to 1024 bytes, every sequence of the two",
  "Boundary sizes, multi-byte text and leftovers of a longer previous response are not what the single test message shows.",
  [TE+"communication/udp_client.rs"], [("send and receive", TE+"communication/udp_client.rs")],
  ["bytes and sender at the server, text of the responses"], GEN, NOTE)
p("N02", "te", "The clocks show the system's time and never run backwards",
  "On every thread the common clock and the thread's own clock show nanoseconds since 1970 within seconds of the system's clock, never less than they showed before on that thread even when the system's clock is set back meanwhile, and advance as time passes; the common clock agrees between threads. Setting a date generator to today lets its time stamps count from the last UTC midnight of the system's time.",
  ["schedules"], "every pattern of readings on up to four threads, any date the system's clock may show, and clocks set forward and back meanwhile",
  "The anchors are taken once per thread or process on the first reading; the test reads one value and compares it with zero.",
  [TE+"utils/timer.rs"], [("clock anchors", TE+"utils/timer.rs")],
  ["values read"], SCH, NOTE)
p("I01", "te", "Instrument identity is exactly symbol plus venue, under concurrency",
  "Two instrument identifiers are equal, and hash equally, exactly when their symbol and venue are equal, no matter how many threads create them concurrently and in which order; an identifier gives back the symbol and venue it was made from, also after a serialisation round trip.",
  ["inputs", "schedules"], "every symbol and venue, every interleaving of concurrent creations",
  "Interning races and aliasing between distinct symbols depend on schedules and on particular symbol sets.",
  [TE+"types/id/mod.rs", TE+"types/venue.rs"],
  [("symbol interning", TE+"types/id/mod.rs")],
  ["equality, hash, accessors, serde"], SCH, NOTE)
p("I02", "te", "Fixed-size instrument codes validate and round-trip",
  "An ISIN code is accepted exactly when it is twelve ASCII characters without space or tab, a ticker exactly when it is text of at most 32 bytes, also when read back from serialised form; an accepted code gives back exactly the text it was made from, compares and hashes as that text, and survives a serialisation round trip.",
  ["inputs"], "every string and byte string",
  "Validation is a claim over all strings, including non-ASCII ones and the boundary lengths.",
  [TE+"types/id/isin_code.rs", TE+"types/id/ticker.rs"],
  [("length validation", TE+"types/id/isin_code.rs")],
  ["constructors, accessors, serde"], INP, NOTE)
p("I03", "te", "The shared queue shows every published value to every worker exactly once",
  "A publisher sharing one buffer with a fixed set of workers gets write access only when all workers have finished with the previous value, and each value it announces is offered to every registered worker exactly once, in publication order, complete and never changed while a worker still works on it; a worker that has finished is offered nothing until the next announcement, unregistered workers never are, and two workers with the same number are refused.",
  ["schedules", "histories"], "every set of workers and every interleaving of their steps with the publisher's, sequential and concurrent",
  "Loss, duplication and overwriting while in use show only in particular interleavings; the repository's own concurrent test is not reliable.",
  [TE+"spinqueue.rs"], [("worker status bits", TE+"spinqueue.rs"), ("publisher access guarded by all workers done", TE+"spinqueue.rs")],
  ["values seen per worker, write access granted"], SCH, NOTE)
p("I04", "te", "Identifier counters never repeat and stop at their limit",
  "However many threads draw from an identifier counter, every number drawn is distinct, the numbers drawn are exactly the consecutive ones from the starting value, and a bounded counter refuses every further draw once its limit is reached instead of wrapping or repeating.",
  ["inputs", "schedules"], "every start/limit and every interleaving of concurrent draws",
  "Uniqueness and the limit under contention depend on the interleaving.",
  [TE+"utils/counter.rs"], [("atomic increments", TE+"utils/counter.rs")],
  ["values drawn by all threads"], SCH, NOTE)
p("I05", "te", "The logger writes every accepted message once and in order",
  "Every message logged at or above the severity then configured, from any number of threads and through any of the logging macros, appears exactly once in the log file by the time shutdown completes, as one well-formed record with its severity, time in the configured zone, topic and content, after all earlier messages of its thread; plain lines handed to the logger appear as they are; the file is named after the local time at which it was opened. Messages below the severity never appear. Logging after shutdown is harmless.",
  ["schedules", "configurations"], "every severity level, any number of logging threads and messages",
  "Loss and reordering depend on schedules and on shutdown timing.",
  [TE+"logger.rs"], [("background writer thread", TE+"logger.rs")],
  ["the log files"], SCH, NOTE)
p("F01", "te", "Order-book features equal their definitions on every pair of books",
  "For every pair of consecutive market observations the derived features equal their defining formulas on the two books: best prices and mid price over the levels with quantity, volume-weighted price over all shown levels of both sides (none when the ask side has no quantity), and per level the bid, ask and combined order-flow imbalance (new quantity when the price improves, change of quantity when it stays, minus the old quantity when it worsens) in plain and logarithmic form, an empty level contributing zero to the latter. A feature object updated with a later observation equals one built from it; levels beyond those both books show are refused.",
  ["inputs"], "every pair of valid books with any number of levels",
  "Tests evaluate one recorded pair; price-moved/unchanged branches per level combine.",
  [TE+"feature/tick.rs", TE+"feature/ofi.rs", TE+"feature/price.rs"],
  [("feature formulas", TE+"feature/tick.rs")],
  ["feature values"], INP, NOTE)
p("F02", "te", "Running weighted sums and averages equal their closed form",
  "After any sequence of timed observations an exponentially time-weighted sum equals the sum of all observations each multiplied by the weight to the power of the time elapsed since it (in the chosen time unit), and an average equals the mixture in which each observation enters with one minus the weight to the power of its gap to the previous one and then decays likewise.",
  ["histories"], "every non-decreasing sequence of observation times and values",
  "The state depends on the whole history; tests feed at most two updates.",
  [TE+"feature/weighted_valuation.rs", TE+"feature/weight.rs"],
  [("recursive update", TE+"feature/weighted_valuation.rs")],
  ["the running value"], GEN, NOTE)
# ---------------------------------------------------------------- quantlib
p("C01", "ql", "US calendars mark exactly the holidays of their published rules",
  "For every instant and every US calendar variant, the local New York (UTC-5) date is a business day exactly when it is neither a weekend nor a holiday under that market's published rules: fixed dates with their weekend shifting (Sunday to Monday; Saturday to Friday except the Federal Reserve, and except New Year and Veterans day), nth-weekday holidays from the year they were introduced, (western) Good Friday where the market observes it, and the one-off closures the calendar lists.",
  ["inputs", "configurations"], "every day 1951-2199, any time of day and time zone, every US calendar variant",
  "Tests list the holidays of one or two years.",
  [QL+"time/calendars/unitedstates.rs", QL+"time/calendar_trait.rs", QL+"time/constants.rs"],
  [("holiday rules", QL+"time/calendars/unitedstates.rs")], ["business-day and holiday predicates"], INP, NOTE)
p("C02", "ql", "Korean calendars mark exactly the national and exchange holidays",
  "For every instant in the years the lunar tables cover (1951-2050), the Korean calendars close the local Seoul (UTC+9) date exactly on weekends, the fixed national holidays and labour day, the lunar new year and harvest holidays (lunar 1/1 and 8/15) with the day before and after, Buddha's birthday (lunar 4/8), the listed one-off and substitute days of 2023-2024, and, for the exchange variant only, the last weekday of the year that is not otherwise closed.",
  ["inputs", "configurations"], "every day 1951-2050, any time of day and time zone, both Korean calendar variants",
  "Tests list the holidays of a few years; the lunar tables hold several hundred hand-entered days.",
  [QL+"time/calendars/southkorea.rs"], [("lunar tables and rules", QL+"time/calendars/southkorea.rs")],
  ["business-day and holiday predicates"], INP, NOTE)
p("C03", "ql", "Added and removed holidays and joint calendars compose as sets",
  "After any history of adding and removing custom holidays on a US or Korean calendar, a local date is closed exactly when it is a weekend or (a rule holiday or added) and never removed: a removed date stays open whatever else says, in whatever order the edits came. A joint calendar is closed exactly when any member is closed, open exactly when all are open, refuses edits, and needs at least one member. Asked which days were added, were removed or are rule holidays it answers from the edits and the rules, a joint calendar for any of its members; the list of holidays between two dates names every closed day, those on weekends only if asked to.",
  ["inputs", "histories", "configurations"], "every history of edits and every non-empty combination of calendars",
  "Edit histories and calendar combinations are unbounded; tests use one edit or one pair.",
  [QL+"time/calendars/nullcalendar.rs", QL+"time/calendars/unitedstates.rs", QL+"time/calendars/southkorea.rs", QL+"time/jointcalendar.rs", QL+"time/calendar_trait.rs"],
  [("added/removed lists", QL+"time/calendar_trait.rs"), ("any/all composition", QL+"time/jointcalendar.rs")],
  ["business-day and holiday predicates"], GEN, NOTE)
p("C04", "ql", "Business-day adjustment lands on the right business day",
  "For every calendar, edited or joint, adjusting a date gives the date itself if it is a business day, otherwise the nearest business day in the convention's direction, the modified conventions turning the other way rather than leave the date's month; time of day and zone are kept, unadjusted means unchanged, and the placeholder convention is refused.",
  ["inputs", "configurations"], "every date, calendar and convention",
  "Month ends next to holiday clusters are rare; tests try a few dates.",
  [QL+"time/calendar_trait.rs"], [("adjustment loop", QL+"time/calendar_trait.rs")], ["adjusted dates"], INP, NOTE)
p("D01", "ql", "Day-count fractions equal their market definitions",
  "For every ordered pair of dates and every supported day-count convention the year fraction equals the convention's definition: whole elapsed days over 365, 360 or 364; plain 30/360 month arithmetic without end-of-month changes; the street convention with a start on the 31st counted as the 30th and an end on the 31st as the 30th when the start is the 30th or 31st; actual/actual with every day weighing one over the length of its own year. Equal dates give zero, a reversed pair and the placeholder convention are refused, and (plain 30/360 aside) the fraction never decreases as the end date moves later.",
  ["inputs", "configurations"], "every pair of dates 1990-2100, every convention and calendar, alone and joint (single precision)",
  "31st-of-month, leap-day and year-boundary combinations exceed what the fixed examples in the tests reach.",
  [QL+"time/calendar_trait.rs", QL+"time/conventions.rs"], [("day-count formulas", QL+"time/calendar_trait.rs")],
  ["year_fraction"], INP, NOTE)
p("D02", "ql", "Elapsed time in years is additive, antisymmetric and exact per year",
  "The elapsed time between two instants in years counts every moment with the length of its calendar year in the start's time zone: it is additive over any intermediate instant, changes sign when swapped, is zero for equal instants however they are written, grows with the end instant, and is one per full calendar year (a turn between a leap and a common year may shift it by at most 1/365-1/366).",
  ["inputs"], "every triple of instants 1990-2100 in one time zone",
  "Additivity across leap and common years is a claim over all triples.",
  [QL+"time/calendar_trait.rs"], [("per-year actual/actual time", QL+"time/calendar_trait.rs")],
  ["get_time_difference"], INP, NOTE)
p("D03", "ql", "Adding and subtracting tenor periods follows calendar arithmetic",
  "For every date and every tenor made of years, months, weeks, days, hours, minutes and seconds, adding or subtracting it (to a date or an instant) applies the units in the order written by civil calendar arithmetic, with month and year steps keeping the time of day reached so far and clamping to the last day of a shorter month; an evaluation date moves by a tenor, and compares with instants, in the same way; texts that hold no tenor are refused, and the approximate length of a tenor in years is the sum of its units (365.25-day years, 30.5-day months).",
  ["inputs"], "every date 1900-2200 and every tenor string, alone or combined",
  "Month wrap-around in both directions and end-of-month clamping fail only for particular month/step combinations.",
  [QL+"utils/string_arithmetic.rs"], [("tenor parsing and month arithmetic", QL+"utils/string_arithmetic.rs")],
  ["resulting dates"], INP, NOTE)
p("M01", "ql", "Interpolators honour nodes, formula, extrapolation and vector calls",
  "On every strictly increasing node set the linear, stepwise (last node at or below) and bilinear interpolators reproduce their node values including the last, follow their defining formula between nodes, follow the chosen extrapolation (flat, linear, or the given left and right values) outside them and refuse when none is chosen; evaluating many sorted points at once equals evaluating each alone, and node sets that are empty, unsorted, of mismatched length, or too small for the extrapolation are refused.",
  ["inputs", "configurations"], "every strictly increasing node set, values and query points, every extrapolation setting",
  "Boundary queries, single nodes and vector paths are special-cased in the code and absent from the tests.",
  [QL+"math/interpolators/linear_interpolator.rs", QL+"math/interpolators/stepwise_interpolatior.rs", QL+"math/interpolators/bilinear_interpolator.rs"],
  [("interpolation formulas", QL+"math/interpolators/linear_interpolator.rs")], ["interpolated values"], INP, NOTE)
p("M02", "ql", "Sorted search and value distribution are exact on every grid",
  "For every strictly increasing grid and sorted query list, index search returns the last grid point not above the query (the first one for a query below the grid), one-by-one and vectorised searches on vectors and arrays agree, and distributing an amount at a point adds it only to the neighbouring grid points, conserving the amount and its first moment (at the nearest end for points outside).",
  ["inputs"], "every strictly increasing grid and query list",
  "Boundary queries and repeated queries are special-cased; tests use one grid.",
  [QL+"utils/find_index.rs", QL+"utils/find_index_ndarray.rs", QL+"utils/distribute_value.rs"],
  [("binary search", QL+"utils/find_index.rs")], ["indices and distributed vectors"], INP, NOTE)
p("M03", "ql", "Cholesky factors reproduce their matrix and reject non-positive ones",
  "For every symmetric positive definite matrix the factor is lower triangular with positive diagonal and its product with its transpose gives the matrix back; matrices that are not square, or have a zero or negative pivot, are refused.",
  ["inputs"], "every symmetric positive definite matrix up to dimension 8, and matrices violating it",
  "One 3x3 example is tested.",
  [QL+"math/cholescky_factorization.rs"], [("factorisation loop", QL+"math/cholescky_factorization.rs")], ["the factor"], INP, NOTE)
p("M04", "ql", "Correlated normal paths have the asked correlations and nothing else",
  "For every positive definite correlation matrix the generated paths are one row of the asked number of steps per variable, standard normal in mean, variance, sign and shares within one and two deviations, correlated between variables as the matrix says at the same step, and independent between steps and between calls.",
  ["inputs", "schedules"], "every correlation matrix of up to five variables, thousands of steps",
  "The test looks at one pair with correlation one half, whose transposed factor, repeated steps or swapped rows give the same matrix; three or more variables do not forgive them.",
  [QL+"pricing_engines/montecarlo/rand_generator.rs", QL+"math/cholescky_factorization.rs"],
  [("sampling", QL+"pricing_engines/montecarlo/rand_generator.rs")], ["sample statistics of the paths"], "property-based testing with statistical bounds of 7.5 standard errors", NOTE)
p("P01", "ql", "Zero curves give consistent discount factors and forward rates",
  "For every curve built from market zero rates, the discount factor is one at zero, equals exp(-rate*time) at the curve's nodes with the rate interpolated linearly (flat outside) from the market rates, and is interpolated linearly between nodes; date and time queries agree at every evaluation date, single and batch queries agree, and forward discount factors and forward rates of every compounding rule between two times are consistent with the ratio of discount factors (over a vanishing period, with the rate over one day); times before the evaluation date or beyond the curve, reversed periods, and unsorted, mismatched or empty inputs are refused.",
  ["inputs", "configurations"], "every set of market zero rates and tenors, every pair of query times, every compounding rule",
  "Tests check one or two curves at a few points.",
  [QL+"parameters/zero_curve.rs", QL+"data/vector_data.rs"], [("curve building and discounting", QL+"parameters/zero_curve.rs")],
  ["discount factors and rates"], INP, NOTE)
p("P02", "ql", "Curve and volatility bumps act on their interval only and undo exactly",
  "Bumping a curve, a dividend vector or a volatility by an amount over an interval changes it by that amount inside the interval and nowhere else (an open end meaning unbounded), and bumping by the opposite amount restores every observable value.",
  ["inputs", "histories"], "every bump interval, size and sequence of bumps undone in any order",
  "Greeks rely on bump/undo; tests bump once over one interval.",
  [QL+"parameters/zero_curve.rs", QL+"parameters/discrete_ratio_dividend.rs", QL+"parameters/volatilities/constant_volatility.rs", QL+"parameters/volatilities/local_volatility_surface.rs"],
  [("bump routines", QL+"parameters/zero_curve.rs")], ["discount factors, dividend ratios, volatilities"], GEN, NOTE)
p("P03", "ql", "Dividends and spot roll consistently with the evaluation date",
  "The dividend deduction ratio to any future date is the product of one minus each ex-dividend ratio between the valuation date and that date; rolling the valuation date forward drops the spot by the dividends passed so that spot times remaining deduction is unchanged, and rolling it back restores spot and deductions.",
  ["inputs", "histories"], "every dividend vector and every sequence of valuation-date moves",
  "Only particular alignments of ex-dates, valuation moves and target dates expose double counting or loss.",
  [QL+"parameters/discrete_ratio_dividend.rs", QL+"parameters/market_price.rs", QL+"evaluation_date.rs"],
  [("observer notification on date change", QL+"evaluation_date.rs"), ("deduction interpolation", QL+"parameters/discrete_ratio_dividend.rs")],
  ["deduction ratios, spot"], GEN, NOTE)
p("P05", "ql", "Volatility surfaces reproduce flat inputs, nodes and total variance",
  "A volatility object built from a constant shows that constant at every maturity and level; one built from a market surface shows, at the requested tenors and spot levels, the market volatilities interpolated linearly between the market maturities and strikes and kept flat outside them, and between the tenors and levels values interpolated in time and in forward moneyness, where the forward starts from the reference spot of the surface when moneyness is sticky and from the current spot when strikes are sticky; total variance is volatility squared times time, total deviation its square root, and the variance grows with time under a constant; surfaces with unsorted maturities, maturities before the evaluation date, or without a reference spot are refused.",
  ["inputs", "configurations"], "every constant, surface grid, spot and curve",
  "Tests build one surface.",
  [QL+"parameters/volatilities/local_volatility_surface.rs", QL+"parameters/volatilities/constant_volatility.rs", QL+"parameters/volatility.rs"],
  [("surface interpolation in moneyness and time", QL+"parameters/volatilities/local_volatility_surface.rs")],
  ["implied volatility and total variance"], INP, NOTE)
p("P06", "ql", "Historical fixings are read by date with market close respected",
  "Looking up a historical fixing gives the value recorded for that date; at or before the daily close it is that day's value and after the close that of the next business day, in the time zone of the market; dates without a record are reported as missing. A floating-rate coupon is the index rate plus spread times the day-count fraction: the rate of a past fixing date is the recorded one (the spot rate when it is missing), that of a future fixing date the curve forward over the index tenor; overnight indices compound day by day once the period has begun fixing, and before that use the average of the first and last forward.",
  ["inputs"], "every history of daily values, every query instant, every coupon period relative to the pricing date",
  "Tests query one stored date.",
  [QL+"parameters/past_price.rs", QL+"parameters/rate_index.rs", QL+"data/daily_value_data.rs"],
  [("fixing lookup", QL+"parameters/past_price.rs"), ("coupon amount", QL+"parameters/rate_index.rs")],
  ["fixing values, coupon amounts"], INP, NOTE)
p("S01", "ql", "Coupon schedules tile the life of the trade exactly",
  "For every effective and maturity date, frequency, convention, calendar and generation direction, the schedule's periods start at the effective date, end at maturity and follow one another without gap or overlap; inner boundaries lie whole multiples of the frequency from the chosen end (months keep the day of the month where it exists), adjusted by the convention; a period is fixed the requested days before its start, moved back to a business day, and paid the requested days after its end, adjusted by the convention, the last one at maturity. A trade without life has no periods; negative gaps, and terms whose adjusted periods would be empty, are refused.",
  ["inputs", "configurations"], "every valid pair of dates and every convention, frequency, direction, gap",
  "Stub periods, month-end rolls and holidays interact; tests build a few schedules.",
  [QL+"instruments/schedule.rs"], [("schedule generation", QL+"instruments/schedule.rs")], ["schedule periods"], INP, NOTE)
p("T01", "ql", "Bond cash flows are the scheduled coupons and one redemption",
  "For every fixed- or floating-rate bond and pricing date, the cash flows per unit of notional are exactly the coupons paying on or after the pricing day, each the rate (or index forward or fixing, plus spread) times the period's year fraction or the amount its schedule entry gives, plus one redemption at maturity unless stripped, amounts paid on the same date added up; a bond needs exactly one kind of coupon, others are refused; it reports the issuer, rating, rank, dates and index it was made with.",
  ["inputs", "configurations"], "every bond specification and pricing date",
  "Tests list the cash flows of single bonds.",
  [QL+"instruments/bond.rs", QL+"parameters/rate_index.rs"], [("cash flow generation", QL+"instruments/bond.rs")], ["cash flow maps"], INP, NOTE)
p("T02", "ql", "Swap legs pay their scheduled coupons and exchanges, and types classify",
  "For every interest rate or currency swap and pricing date, each side's cash flows are exactly its coupons paying on or after the pricing day on its initially exchanged amount (one if there is no exchange) plus the principal exchanges still to come, the fixed side paying coupons and final amount and receiving the initial amount, the floating side the reverse; specifications classify as IRS, CRS, FX swap, FX forward or (maturing within two days of issue) FX spot, with the pair floating to fixed currency, and inconsistent ones are refused.",
  ["inputs", "configurations"], "every swap specification and pricing date",
  "Tests list the cash flows of one swap of each type.",
  [QL+"instruments/plain_swap.rs"], [("leg cash flow generation and type classification", QL+"instruments/plain_swap.rs")], ["leg cash flows, swap type"], INP, NOTE)
p("T03", "ql", "Portfolio queries select exactly the matching instruments",
  "For every portfolio, selecting by currency, underlying, type or maturity (with types excluded, or within a given selection) returns exactly the instruments that satisfy the condition, in portfolio order and once each; an instrument without maturity counts as never maturing; the collected underlyings, types, currency pairs, quanto pairs, underlyings needing volatility and currencies (own, futures' underlying and swap legs') are exactly those of the instruments, each once; every instrument reports the code, name, currency, notional and maturity it was made with.",
  ["inputs"], "every portfolio of the supported instruments",
  "Tests query one three-instrument portfolio.",
  [QL+"instrument.rs", QL+"pricing_engines/match_parameter.rs"], [("selection helpers", QL+"instrument.rs")], ["selected codes"], INP, NOTE)
p("T04", "ql", "Instruments and market data survive a serialisation round trip",
  "For every valid instrument, schedule, calendar, market data set (values, vectors, surfaces), evaluation date, calculation configuration, instrument category and calculation result, writing it as JSON and reading it back gives an equal object: no field is lost or changed and writing it again gives the same JSON. (Objects keyed by dates or by tuples, which JSON keys cannot hold, are known findings.)",
  ["inputs"], "every valid instrument and market data object",
  "Round trips fail for particular field combinations; tests try one object per type.",
  [QL+"instruments/bond.rs", QL+"instruments/plain_swap.rs", QL+"instruments/vanilla_option.rs", QL+"instruments/fx_futures.rs", QL+"instruments/futures.rs", QL+"instruments/schedule.rs", QL+"currency.rs", QL+"data/vector_data.rs", QL+"data/surface_data.rs", QL+"data/value_data.rs", QL+"data/daily_value_data.rs"],
  [("serde derives and custom impls", QL+"currency.rs")], ["equality after round trip"], INP, NOTE)
p("T05", "ql", "Currency and currency-pair codes convert losslessly",
  "Every supported currency and pair converts to its text and JSON form and back to itself, the reciprocal of a pair swaps its currencies and is its own inverse, distinct pairs have distinct codes, and text that names no currency gives NIL (or an error from JSON).",
  ["inputs"], "every currency and ordered pair of currencies",
  "Tests check a handful of codes.",
  [QL+"currency.rs"], [("code tables", QL+"currency.rs")], ["codes, parsed values"], INP, NOTE)
p("T06", "ql", "Every instrument is matched with the curves the matching rules prescribe",
  "For every instrument and set of matching rules: bonds discount on the curve of their issuer, type, rating and currency, rate swaps on their index's curve, options not settled daily on their currency's funding curve, collateral and borrowing curves are those of the underlyings (and a treasury futures' borrowing tag), index forwards those of the index, and currency products use the two curves of their two currencies; what does not apply is Dummy, and a curve that should be there but is missing is an error. A portfolio's curves are exactly those its instruments use, and the instruments using a curve are listed once each whatever roles it has for them.",
  ["inputs", "configurations"], "every portfolio and every assignment of curves, complete or not",
  "Tests match two instruments with complete maps.",
  [QL+"pricing_engines/match_parameter.rs", QL+"instrument.rs"], [("curve matching", QL+"pricing_engines/match_parameter.rs"), ("curve queries", QL+"instrument.rs")], ["curve names, selected codes"], INP, NOTE)
p("V01", "ql", "Vanilla option values obey parity, bounds, monotonicity and Black's formula",
  "For every option valued by the analytic pricer, not past its maturity, the value equals Black's formula on the forward (spot carried by borrowing over collateral discount factors and remaining dividends, volatility read at strike over forward, discounted on the discount curve), and what exercise would bring at the moment it expires or without volatility; a quanto adjustment replaces the forward by the forward times exp(-correlation x volatility x fx volatility x time); puts and calls satisfy parity, values respect no-arbitrage bounds and, for constant volatility, move the right way in strike, volatility and spot; an option paid in another currency than its underlying's is refused without a quanto adjustment, and so is one beyond the curves.",
  ["inputs", "configurations"], "every strike, maturity, spot, volatility, curves, dividends, settlement type and quanto setting",
  "Tests price one option.",
  [QL+"pricing_engines/option_analytic_pricer.rs", QL+"parameters/quanto.rs"], [("Black formula", QL+"pricing_engines/option_analytic_pricer.rs")],
  ["option values"], INP, NOTE)
p("V02", "ql", "Futures and FX forwards price at the no-arbitrage forward",
  "For every market state an equity futures is worth spot times the borrowing over the collateral discount factor times the dividends' remaining ratio, and exposes (value - traded price) x unit notional of its currency; an FX futures is worth spot FX times the underlying over the futures currency's discount factor, and exposes the underlying currency's discount factor and minus the futures currency's times the traded price; stock and cash are worth spot and one; a value follows later moves of the spot; maturities beyond the curves and instruments of another kind are refused.",
  ["inputs"], "every spot, curves, dividend vector and maturity",
  "Tests price one contract each.",
  [QL+"pricing_engines/futures_pricer.rs", QL+"pricing_engines/fx_futures_pricer.rs", QL+"pricing_engines/identity_pricer.rs", QL+"pricing_engines/unit_pricer.rs"],
  [("forward formula", QL+"pricing_engines/futures_pricer.rs")], ["values, exposures"], INP, NOTE)
p("V03", "ql", "Bonds and swaps are worth their discounted future cash flows",
  "For every bond or swap and valuation date, the value is the sum of its cash flows on days after the pricing day, discounted on its curve (relative to a bond's own later pricing day; a swap's floating leg on its own curve and converted at the FX rate), the detailed result agrees with the plain value and lists exactly the cash flows from the pricing day on with probability one, expected amounts are amount times probability summed by date (an error if a probability is missing), and currency exposures are the legs' values times the unit notional, per currency.",
  ["inputs", "configurations"], "every bond and swap specification, curves, FX rate and valuation date",
  "Tests price single instruments.",
  [QL+"pricing_engines/bond_pricer.rs", QL+"pricing_engines/plain_swap_pricer.rs", QL+"pricing_engines/npv_result.rs"],
  [("discounting loop", QL+"pricing_engines/bond_pricer.rs")], ["values, cash flow reports, exposures"], INP, NOTE)
p("V04", "ql", "Yield-based bond prices follow the market formula and invert",
  "For every bond with cash flows left the yield price equals the market convention formula (each flow compounded by the frequency-scaled 30/360 time from the next flow, the broken period at simple interest on actual days since the previous payment or issue), and decreases as the yield rises; for a treasury bond solving for the yield of a price gives that price back whatever the first guess; the virtual treasury bond is worth its annuity formula; a treasury futures is worth its virtual bond at the average yield of its bonds' forward values, times its borrowing discount factor, and accepts only bonds priced on its maturity.",
  ["inputs"], "every bond specification, pricing date and yield in the market range",
  "Tests check one bond and one yield.",
  [QL+"pricing_engines/krx_yield_pricer.rs", QL+"instruments/ktbf.rs", QL+"pricing_engines/ktbf_pricer.rs"],
  [("yield formula and solver", QL+"pricing_engines/krx_yield_pricer.rs")], ["prices and yields"], INP, NOTE)
p("E01", "ql", "Reported sensitivities equal the change of value under the stated shift",
  "For every portfolio, market and configuration each figure an engine reports equals, in its stated unit and times the unit notional, the difference of values computed anew on the shifted market: delta and gamma are the central first and second difference for a relative spot move, scaled to a 1% move (gamma one half of the second difference), except that stocks and futures report 1% of their value as delta and no gamma; vega, rho and dividend sensitivity are the one-sided difference under the configured absolute shift of all volatilities, of one curve or of one underlying's dividends, scaled to 0.01, 0.0001 and 0.0001; the vega structure and the vega matrix shift tenor by tenor from the longest, within a tenor by ascending moneyness, and keep what is shifted, so that with equal shifts they add up to the vega; the rho and dividend structures shift one bucket at a time; theta is the change of value per day to the day theta_day days on (for instruments that end by then, to the earliest maturity among them), plus the cash paid in between. The figures are listed per factor the instrument depends on (curves: those the matching rules give for it, borrowing aside) and no other.",
  ["inputs", "configurations"], "every portfolio of supported instruments with sticky-moneyness volatilities, every market state and every bump configuration",
  "Tests compare one portfolio's figures.",
  [QL+"pricing_engines/engine.rs", QL+"pricing_engines/calculation_configuration.rs", QL+"definitions.rs"],
  [("bump and revalue loops", QL+"pricing_engines/engine.rs")], ["calculation results"], "differential property-based testing (engine versus revaluation on market objects made anew)", NOTE)
p("E02", "ql", "Requesting one measure never changes another, and reruns repeat",
  "For every portfolio the figures reported for a measure are the same whichever other measures are requested with it, calculating again with the same engine succeeds and reproduces every figure, and afterwards every instrument is worth what it was worth before.",
  ["inputs", "configurations", "histories"], "every portfolio, every subset of requested measures, repeated runs",
  "A shift left un-restored shows only through the order of later measures.",
  [QL+"pricing_engines/engine.rs"], [("restore after bump", QL+"pricing_engines/engine.rs")], ["calculation results"], "metamorphic property-based testing over measure subsets and repeated runs", NOTE)
p("E03", "ql", "Parallel grouping of a portfolio never changes its results",
  "However a portfolio is split into groups and whatever the order of its instruments, every instrument is valued exactly once, in the first category that accepts it (by type name, by currency, and by the exact list of underlyings unless it has none), its figures are those of its group valued alone, and instruments no category accepts make the distribution fail. An instrument valued alone has the figures it has in a portfolio (theta when several instruments end within theta_day excepted).",
  ["inputs", "configurations", "schedules"], "every portfolio, every list of group categories, any parallel schedule",
  "Group assignment and parallel merge are claims over all category lists; tests use one.",
  [QL+"pricing_engines/engine_generator.rs", QL+"pricing_engines/engine.rs"], [("instrument distribution and parallel merge", QL+"pricing_engines/engine_generator.rs")],
  ["merged results"], "metamorphic property-based testing over portfolio partitions", NOTE)
p("E04", "ql", "Results keep what they are given and convert every monetary figure once",
  "A result reports the instrument it was made for and, for every kind of figure and factor, the last value set; its value is the value per unit times the unit notional and is refused before there is one. Re-expressing it in another currency multiplies value, currency exposure, theta and every sensitivity by the given rate exactly once, sets the representation currency, and leaves the instrument, evaluation date, value per unit, cash flows and theta days as they are; to its own currency it is the identity; the result it is made from does not change. Every engine result names its instrument, type, currency, unit notional, maturity and evaluation date.",
  ["inputs", "histories"], "every sequence of set figures, every rate, chains of conversions",
  "Fields are converted one by one; a missed one shows only when that field is present.",
  [QL+"pricing_engines/calculation_result.rs", QL+"instruments/instrument_info.rs"], [("field-wise conversion", QL+"pricing_engines/calculation_result.rs")],
  ["converted result"], "stateful model-based property-based testing", NOTE)
p("E05", "ql", "Instruments are valued with exactly the prescribed market data, or refused",
  "For every portfolio and market an engine (and a pricer factory) values each instrument with exactly the curves, price, volatility, quanto parameters, fixings and exchange rate its matching rules name, whatever else is loaded: an interest rate swap is discounted with its forward curve, a daily settled option is not discounted, an exchange rate is the quoted pair, else the reciprocal of the opposite pair, else the ratio of both won rates. When a prescribed item is missing the calculation is refused with an error, never valued with another item and never a panic; so are an empty portfolio and one holding an instrument whose maturity is not after the evaluation date, and only those. A calculation configuration stores what it is given and is refused unless delta and gamma go together, every shift is positive and theta_day is positive.",
  ["inputs", "configurations"], "every portfolio, market with or without holes, and configuration",
  "Which curve is used shows only when the curves differ, a hole only when something needs it.",
  [QL+"pricing_engines/pricer_factory.rs", QL+"pricing_engines/engine.rs", QL+"pricing_engines/match_parameter.rs", QL+"pricing_engines/calculation_configuration.rs"],
  [("data lookup", QL+"pricing_engines/engine.rs"), ("pricer construction", QL+"pricing_engines/pricer_factory.rs")], ["values and errors"], "differential property-based testing with injected holes in the market data", NOTE)
p("E06", "ql", "Results are printed, stored and summed up without losing a figure",
  "The printed form of a calculation result shows each figure the result holds exactly once, under its name and factor, rounded to the decimals shown with thousands separated, and no figure it does not hold; sums shown over buckets are the sums of the buckets. A result survives a round trip through JSON in everything but its dated cash flows. A value per unit adds up its coupons per date as amount times probability, refuses to when a probability is missing, and its sums, differences, products and quotients are those of the value.",
  ["inputs", "histories"], "every sequence of settings of a result, every set of coupons",
  "Results with many figures at once, several matrices, negative and large numbers, and coupons sharing a date appear in no test.",
  [QL+"pricing_engines/calculation_result.rs", QL+"pricing_engines/npv_result.rs", QL+"utils/number_format.rs"],
  [("printing", QL+"pricing_engines/calculation_result.rs"), ("expected coupons", QL+"pricing_engines/npv_result.rs")], ["printed text, JSON, and sums"], "model-based generation of result histories, parsed output, round trips", NOTE)

p("T07", "ql", "Instruments and market objects report exactly the terms they were made with",
  "For every instrument of every kind each question about its terms (traded price, issuer, rating, rank, rate index, pricing and issue date, schedule, calendar, coupon frequency and stripping, strike, option type and settlement, currencies of legs and underlying, currency pairs, kind of swap, bonds under a futures, borrowing tags, cash flows) is answered with the term it was made with, and refused with an error when its kind has no such term. Contradictory terms make no instrument: a bond has either a fixed or a floating coupon, bonds under a futures are priced at its maturity, and a swap is exactly one of rate swap, currency swap, FX swap, forward or spot (maturing within two days of issue) by its exchanges, rates, legs and currencies. Market data, curves, indices, volatilities, quanto parameters, prices and dividends report the name, code, currency, dates and values they were made with or last given, series of daily values every edit in date order.",
  ["inputs", "histories"], "every instrument, every market object, every history of edits",
  "Which question reads which field of which kind is a table of hundreds of entries; tests read a few.",
  [QL+"instrument.rs", QL+"instruments/", QL+"data/", QL+"parameters/"],
  [("default refusals and dispatch", QL+"instrument.rs"), ("plain swap's kind and pairs", QL+"instruments/plain_swap.rs")],
  ["answers and errors"], GEN, NOTE)
