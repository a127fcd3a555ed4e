OUI = ["carbon/carbon_order_ui.py"]
GRID = "exhaustive enumeration of a bounded grid of curve shapes and call arguments on the real code, judged against a definitional oracle"
GNOTE = "Complete over the listed grid; trusts the reference curve in mc/ref.py and floating tolerances. Says nothing about inputs outside the grid."

prop("U01", "Order UI curve functions describe one carbon curve",
     "For every curve, all functions of the order UI object (amounts on one side for the other, trades from the current point, marginal and effective prices, ranges, intercepts and the curve parameters) agree with the carbon invariant given by capacity and price range, and with each other as inverses, in the price convention of the pair. Arguments beyond the curve give None, or ValueError with raiseonerror. Flat curves trade everything at their one price.",
     ["inputs", "configurations"], "every curve (either token, narrow to very wide ranges, extreme prices and sizes, empty to full) and every argument",
     "Tests evaluate a handful of curves; the functions have to agree along the whole curve, at its ends and beyond them.",
     OUI, [("curve functions", "CarbonOrderUI.dyfromdx_f/dxfromdy_f/yfromx_f/xfromy_f/p_marg_f/p_eff_f/yfromp_f/dyfromp_f"), ("parameters", "CarbonOrderUI properties")],
     GRID, GNOTE)
prop("U02", "Equivalent descriptions construct the same order UI",
     "The same order described by prices (either pair orientation, ends in either order), by contract parameters, by width and intercepts, by a simulator order or by an SDK strategy record gives the same curve; exported contract parameters are those of the curve. Inconsistent descriptions are rejected.",
     ["inputs", "configurations"], "every curve shape in every description, SDK records in both token orders",
     "A relation between constructors that tests check on isolated examples.",
     OUI + ["carbon/order.py"], [("constructors", "CarbonOrderUI.from_prices/from_BSy/from_Qxy/from_order/from_SDK"), ("export", "CarbonOrderUI.yzABS")],
     GRID, GNOTE)
prop("U03", "Trades on order UI curves move along the curve and conserve tokens",
     "Every executed trade on an order UI curve (selling y, buying x, or trading to a price) moves it along its invariant, reports what it did, and adds exactly the tokens received to the linked curve; the balance stays between zero and the capacity, which grows only on overfill. Quotes and refused trades change neither curve. Adding liquidity changes only the amount on that curve.",
     ["histories", "inputs"], "every sequence of trades and liquidity additions on linked and unlinked curves",
     "Tests execute short fixed sequences; the invariant has to hold on both linked curves after every history, including overfills and refused trades.",
     OUI, [("trades", "CarbonOrderUI.selly/buyx/tradeto"), ("liquidity", "CarbonOrderUI.addliqy")],
     "explicit-state BFS over operation histories on the real linked curves, in lock-step with a reference curve model",
     "Every history over the listed books, alphabets and depth is executed and judged transition by transition.")
prop("U04", "Liquidity in a price interval, goal seek and rounding",
     "The liquidity of a curve in a price interval is its share of the range, additive over adjacent intervals, independent of the order of the ends, and consistent between tokens. Goal seek returns a root inside any bracket with a sign change and rejects others. Rounding to significant digits is accurate to those digits.",
     ["inputs"], "all intervals around every curve, all brackets and functions of the grid",
     "Tests check a few intervals on one curve and one goal-seek call.",
     OUI, [("liquidity", "CarbonOrderUI.liquidity_approx"), ("goal seek", "CarbonOrderUI.goalseek"), ("rounding", "CarbonOrderUI.roundsd")],
     GRID, GNOTE)
prop("P01", "Pair conversions and limits respect the price convention",
     "Converting amounts and prices between the two tokens of a pair uses the price as quote token per base token, round trips, gives the same result through the reversed pair, and gives None for foreign tokens. A limit is met exactly when the current price is at least as good for the party placing it, in both directions, orientations and with the reverse flag.",
     ["inputs", "configurations"], "all tokens, prices, amounts, sides and flags, through the pair and its reverse",
     "Tests check single conversions and limits.",
     ["carbon/pair.py"], [("conversions", "CarbonPair.convert/convert_price/price"), ("limits", "CarbonPair.limit_is_met")], GRID, GNOTE)
prop("P02", "Every way of building a pair gives the same pair",
     "A pair built from a slash pair, tokens, an ISO pair, another pair or by reversing twice has the same tokens, names, decimals and display symbols; decimals follow their tokens. Ambiguous or incomplete descriptions are rejected.",
     ["inputs", "configurations"], "all ordered pairs of token names (upper, mixed case, names containing each other) and decimals",
     "Tests construct a few pairs of equal-length upper case names.",
     ["carbon/pair.py"], [("construction", "CarbonPair.__init__/create/from_slashpair/from_isopair_and_tkn/reverse"), ("decimals", "CarbonPair.set_decimals")], GRID, GNOTE)
CPCF = ["carbon/tools/cpc.py"]
prop("C01", "Constant product curve functions agree with the invariant",
     "For every constant product curve, however it was described (invariant, coordinates, price, Uniswap v2 or v3 parameters), the virtual and actual balances, bounds, price range, value and boundary flags follow from the invariant and the actual balances, and the functions giving one coordinate from the other or both from a price lie on it. Beyond the range they give nothing or stick to the boundary, unless told to ignore bounds.",
     ["inputs", "configurations"], "curves of every range shape (unlimited, one-sided, narrow, wide, empty on one side or both), extreme prices and sizes, all arguments inside and outside",
     "Tests evaluate a few curves with a few prices.", CPCF, [("curve functions", "ConstantProductCurve.xyfromp_f/yfromx_f/..."), ("constructors", "ConstantProductCurve.from_*")], GRID, GNOTE)
prop("C02", "Trades on constant product curves keep invariant and bounds",
     "Executing a trade on a constant product curve gives a new curve with the same invariant and range whose actual balances changed by exactly the amounts exchanged; the original curve is unchanged. Trades that would take more than the actual balances are refused unless bounds are ignored. Splitting a trade gives the same result, and trading back restores the curve.",
     ["histories", "inputs"], "every sequence of trades in either token, with and without bounds, on curves of every range shape",
     "Tests execute single trades.", CPCF, [("trades", "ConstantProductCurve.execute")],
     "explicit-state BFS over trade histories of the real curves, with split and reverse relations on every transition", "Every history of the alphabet to the depth is executed and judged against the definition.")
prop("C03", "Carbon orders and their constant product curves trade alike",
     "The constant product curve of a carbon order (from prices in either convention, from contract parameters, or from an order object) holds exactly the order's liquidity on one side and none on the other, has its marginal price and range, and gives the same amounts for every trade the order can do. Inconsistent order descriptions are rejected, and zero-width orders trade at their price.",
     ["inputs", "configurations"], "orders of all widths, levels, sizes and fills, either token, either pair orientation, each description",
     "Tests compare one order.", CPCF + OUI, [("conversion", "ConstantProductCurve.from_carbon"), ("conversion", "CarbonOrderUI.as_cpc")], GRID, GNOTE)
prop("C04", "Curves survive serialization",
     "Curves and containers of curves converted to dictionaries, JSON, data frames or CSV and back are the same curves with the same ids, pairs, fees, descriptions and parameters, in the same order, whether or not optional fields are set.",
     ["inputs", "configurations"], "all containers over a set of curves that differ in which optional fields are set and how they were made, in every order",
     "Tests round-trip curves with all fields set.", CPCF, [("serialization", "ConstantProductCurve.asdict/from_dict, CPCContainer.asdicts/asdf/from_dicts/from_df")], GRID, GNOTE)
prop("C05", "Curve containers stay consistent with their contents",
     "However a container was built and extended (at construction, one by one, by lists, generators or inverted curves), its length, order, lookups by id, index, token, directed or undirected pair, its token tables, prices and token scale all describe exactly the curves in it. Queries give the same curves in every result form, leave the container unchanged, and copies are independent.",
     ["histories", "configurations", "inputs"], "every way of building containers over a curve set, and every query with every form of its arguments",
     "Tests query containers built in one go; indexes kept per container have to follow every way of adding.", CPCF,
     [("indexes", "CPCContainer.curves_by_cid / curveix_by_curve / curves_by_primary_pair"), ("adding", "CPCContainer.add/__iadd__"), ("queries", "CPCContainer.by*")],
     "exhaustive exploration of the container's operation sequences, each compared with a list model", "Complete over the listed curves and sequences.")
prop("C06", "Primary pairs are unique; pair filters select what they say",
     "Of the two orientations of a pair exactly one is primary, decided by the numeraire order of the tokens regardless of token id suffixes, and prices convert accordingly. Filtering pairs by token conditions selects exactly the pairs that meet all (or any) of the conditions.",
     ["inputs", "configurations"], "all ordered token pairs; all combinations of conditions, argument forms and modes",
     "Tests check a few pairs and one or two conditions.", CPCF + ["carbon/tools/simplepair.py"], [("primary pairs", "Pair.isprimary/primary"), ("filters", "CPCContainer.filter_pairs")], GRID, GNOTE)
prop("C07", "Price estimates average all tradable curves of a pair",
     "The price estimate of a token in another is the average of the prices of all curves between the two tokens that are not at a range boundary, in the requested direction, weighted by their size; without such curves there is none. Tables of estimates agree with the single estimates and report missing pairs.",
     ["inputs", "configurations"], "all sets of curves with both directions, sizes and boundary states, all token pairs",
     "Tests estimate prices on one curve set.", CPCF, [("estimates", "CPCContainer.price_estimate/price_estimates")], GRID, GNOTE)
prop("C08", "An inverted curve behaves like the curve written the other way round",
     "All values, bounds, functions and trades of an inverted curve are those of the same liquidity described with the two tokens exchanged. Wrapping a list of curves brings all curves of a pair into the primary orientation and unwrapping gives back the originals.",
     ["inputs", "configurations"], "curves of every range shape, all functions, inside and outside the range",
     "Tests compare a few functions on one curve.", CPCF, [("inverter", "CPCInverter")], GRID, GNOTE)
prop("C09", "Pair analysis tables state what the curves hold",
     "The analysis of the curves of a container (lists, volumes per token and curve, aggregated volumes with concentration, value and leverage, numbers of curves per pair, average, extreme and dispersion of prices, price lists) gives for every token or directed pair exactly the figures of the curves concerned, all pairs or only those selected; the symmetric count of a pair is that of its two directions. The tables leave the container unchanged.",
     ["inputs", "configurations"], "all sets of curves of several pairs in both directions, parallel, levered and empty, all tables and selections",
     "No test compares the tables with the curves.", CPCF, [("tables", "CPCContainer.pairs_analysis, AF, xystats, format")], GRID, GNOTE)
OPTF = ["carbon/tools/optimizer.py", "carbon/tools/cpc.py"]
prop("O01", "Single-pair optimizer finds the arbitrage optimum",
     "For any set of curves of one pair, in whatever orientation they are written, the single-pair optimizer returns the price at which the token that is not the target balances, the trades of all curves to that price within their ranges, and their sum in the target token, which never is a cost and is the best possible. Its functions of price give the sums and values of all curves. Target and maximum mode agree (where prices are near one).",
     ["inputs", "configurations"], "all sets of curves with unlimited, limited, one-sided, disjoint and boundary ranges, price levels, orientations and targets",
     "Tests optimize a few curve sets; optimality over all curve configurations is a statement about every set.", OPTF,
     [("optimizer", "CPCArbOptimizer.simple_optimizer"), ("root search", "OptimizerBase.goalseek")], GRID, GNOTE)
prop("O02", "Marginal price optimizer finds the multi-token arbitrage optimum, or reports an error",
     "For any connected network of curves and any target token, a result that is not an error has prices at which every other token balances, trades of all curves to these prices within their ranges, and a target amount that is never a cost and cannot be improved (weak duality). The result does not depend on start prices, order or orientation of the curves; minimal and full results agree; after the trades nothing is left to gain. On unbounded curves the optimum is found. Failure is reported as an error without numbers.",
     ["inputs", "configurations"], "all networks of curves over several tokens with all range shapes, prices and sizes, targets and start prices",
     "Tests optimize one or two fixed networks; the Newton iteration can stop at non-solutions for particular networks only.", OPTF,
     [("optimizer", "CPCArbOptimizer.margp_optimizer"), ("result", "CPCArbOptimizer.MargpOptimizerResult"), ("adjusted curves", "CPCArbOptimizer.adjust_curves")], GRID, GNOTE)
prop("O03", "Trade instructions say exactly what each curve trades",
     "Trade instructions of every optimizer result name each traded curve once, with the token going in (positive) and the token coming out (negative), amounts that move the curve to the optimal price, and totals that reconcile with the result; in every output format, for curves of any size. Amounts of one sign are rejected. Adjusting curves by amounts moves each along its invariant.",
     ["inputs", "configurations"], "all optimizer results over curve networks at several size scales, all amount pairs, all formats",
     "Tests look at the instructions of one result; rounding noise on curves that do not trade, of either sign, depends on sizes.", OPTF,
     [("instructions", "CPCArbOptimizer.TradeInstruction"), ("adjusted curves", "CPCArbOptimizer.adjust_curves")], GRID, GNOTE)
prop("O04", "Self financing constraints and numerical helpers do what they say",
     "A self financing constraint has exactly one variable; tokens not mentioned are zero; foreign tokens are rejected; arbitrage constraints are recognized. Goal seek finds the root in a bracket with sign change to its precision, also for small and large numbers, and rejects others; Newton search finds extrema or reports an error; Jacobians match the analytic ones. Optimizers work without the convex solver library.",
     ["inputs", "configurations"], "all value combinations of constraints; functions, roots, brackets over many scales",
     "Tests use a few constraints and functions near one.", OPTF, [("constraints", "CPCArbOptimizer.SelfFinancingConstraints"), ("helpers", "OptimizerBase.goalseek/findminmax_nr/jacobian/posx/negx")], GRID, GNOTE)
prop("O05", "The convex problem has exactly the intended feasible trades and objective",
     "The problem handed to the convex solver allows exactly the trades that keep every curve's invariant, take no more than its actual balances, and make every token other than the target sum to its constraint (zero unless given), and its objective is the net amount of the target token. Results read back from the solver are unscaled correctly and in every form.",
     ["inputs", "configurations"], "all networks of curves, kinds of constraints and options; for each, trades that meet all constraints and trades that break each one",
     "Tests cannot solve the problem in this environment (the solver is not installed), and a missing constraint only shows as a too good result.", OPTF,
     [("problem", "CPCArbOptimizer.nofees_optimizer"), ("result", "CPCArbOptimizer.NofeesOptimizerResult")],
     "exhaustive enumeration of candidate trades against the constraint set the code builds, judged by a definitional predicate", GNOTE)

ARBF = ["carbon/tools/arbgraphs.py"]
prop("G01", "Arbitrage graphs contain exactly the given edges, and all queries agree",
     "A graph built by adding trades, signed amounts, connections, curves, trade results or nodes and edges has exactly those tokens and edges with their amounts, prices, weights and identifiers; mixed edge types and invalid amounts are rejected. Filters, lookups, degrees, adjacency and Laplacian matrices, statistics and tables agree with them. A duplicate is an independent full graph with the same (or per pair consolidated) edges.",
     ["inputs", "configurations"], "all small multigraphs over three tokens in every way of building them, graphs of curve sets and their optimization results",
     "Tests look at single graphs; parallel, asymmetric and one-way edges and all query combinations are not sampled.", ARBF,
     [("construction", "ArbGraph.add_edge/add_edge_dxdy/add_edge_connectiontype/add_edges_cpc/from_r"), ("queries", "ArbGraph.filter_edges/degree/edge_statistics/edgedf"), ("duplicate", "ArbGraph.duplicate")], GRID, GNOTE)
prop("G02", "Transport over graphs conserves tokens, respects capacity and is atomic",
     "A transport over an edge or a pair pays out at the edge prices, pro rata to remaining capacity. When recorded it moves exactly the amounts between the nodes and uses up capacity of the edges; beyond the remaining capacity or the funds of the node it is refused (unless errors are switched off), and a refused or unrecorded transport changes nothing. Resetting restores amounts and capacity.",
     ["histories", "inputs"], "every sequence of transports, funding and resets over graphs with parallel, chained and tiny edges",
     "Tests run one or two transports; what a refused transport leaves behind shows only in the next operations.", ARBF,
     [("transport", "ArbGraph.transport/Edge.transport"), ("state", "Node.state/Edge.state/ArbGraph.reset_state")],
     "explicit-state exploration of all operation histories up to a depth on the real graph objects, in lock-step with a reference model",
     "Every history over the listed graphs, alphabet and depth is executed and judged step by step.")
prop("G03", "Arbitrage cycles: found completely and run correctly from any token",
     "The cycles of a graph are exactly its simple directed cycles. Running one from any token pushes the largest possible amount through all edges of each hop and reports token, start index, amounts in and out, profit and returns that agree with each other, the same in every output format; a token not in the cycle is replaced by the first one or rejected, as asked. Cycle iteration, pairs, paths and subcycle tests follow the definition for every start.",
     ["inputs", "configurations"], "all directed graphs on up to four tokens, all cycles, start tokens, formats and node sequences",
     "Tests run a few cycles of one graph, mostly from the first token.", ARBF,
     [("cycles", "ArbGraph.cycles/Cycle.items/pairs/is_subcycle_of"), ("arbitrage", "ArbGraph.run_arbitrage_cycle/run_arbitrage_cycles/run_arbitrage_cyclesf")], GRID, GNOTE)
prop("G04", "Prices in connection graphs follow the shortest path",
     "The price of a token in another is the product over a shortest path of the mean prices of the edges of each hop, one for the same token, with the right units; unreachable pairs give an error. The price table has these prices for the selected tokens. The multiplier along any path or cycle is the product of its hop prices.",
     ["inputs", "configurations"], "all small connection graphs, symmetric and one-way, all token pairs, paths and cycles",
     "Tests check a few pairs of one symmetric graph.", ARBF,
     [("prices", "ArbGraph.price/pricetable/shortest_path/ptransport")], GRID, GNOTE)
prop("G05", "Amounts, edges and tracked values obey their algebra",
     "Arithmetic, comparison and formatting of amounts act on the number and keep the token, and refuse other tokens. Adding, scaling, copying and reversing edges gives the total, scaled, same and opposite trade with matching prices, pairs and conventions for both edge types. Tracked values remember every value set since the last reset. As record, tuple or table row each object gives exactly its fields, restricted and ordered as asked.",
     ["inputs", "histories"], "amounts, prices over many scales, both edge types and conventions, all short sequences of set and reset",
     "Tests use a few edges in one convention.", ARBF,
     [("amounts", "Amount"), ("edges", "Edge.__add__/__mul__/reverse/duplicate/price/pair/convention"), ("tracked values", "TrackedStateFloat")], GRID, GNOTE)

BT = ["benchmark/core/trade/impl.py", "benchmark/core/trade/spec.py"]
prop("B01", "Contract trade functions never favour the trader and match the specification",
     "For every order and amount the integer trade functions give the exact amounts of the carbon invariant rounded against the trader: by target never less in, by source never more out, off by no more than the integer rounding they need; a result beyond the liquidity or not representable is refused, never wrapped. The decimal specification gives the exact amounts. Trading the result back never profits.",
     ["inputs"], "all orders and amounts from one unit to the limits of 256 bit arithmetic, flat and curved, full to nearly empty",
     "Tests compare implementation and specification on sample files; overflow and rounding boundaries need particular magnitudes.", BT,
     [("integer implementation", "benchmark/core/trade/impl.py"), ("specification", "benchmark/core/trade/spec.py")], GRID, GNOTE)
prop("B02", "Order encoding represents the order to its precision",
     "Encoding an order (liquidity, highest, lowest and marginal price) into contract integers and decoding it again gives the order back with relative errors within the precision of the contract floats, rates rounded down and never inverted; encoded rates fit their words; the capacity is at least the liquidity.",
     ["inputs"], "all orders over the grid of liquidity and prices over many scales, marginal rates anywhere in the range including both ends",
     "Tests encode a few orders.", BT, [("encoding", "benchmark/core/trade/impl.py encodeOrder/decodeOrder/encodeRate/decodeRate")], GRID, GNOTE)
prop("B03", "Order matching is greedy (Fast) or globally optimal (Best), and reports what orders pay",
     "Matching an amount over orders gives amounts that never exceed the requested amount or the liquidity of each order, with the output that the trade function gives for each input. Fast matching fills orders by decreasing effective rate; Best matching is globally optimal: no split of the same amount over the orders trades better, up to integer rounding. Nothing to match gives no actions.",
     ["inputs", "configurations"], "all sets of up to three orders of different shapes and depths, all amounts, by source and by target",
     "Tests match fixed order files; optimality is a statement over all alternative splits.", ["benchmark/core/match/impl.py"],
     [("matching", "benchmark/core/match/impl.py matchFast/matchBest")],
     "exhaustive enumeration of order sets and amounts on the real matcher, judged against exhaustively enumerated alternative splits and an exact waterfilling oracle", GNOTE)

HH = "carbon/helpers/"
HIST = "explicit-state exploration of all operation histories up to a depth on the real objects, in lock-step with a reference model"
prop("H01", "Strategy descriptions all mean the same orders",
     "A strategy given by prices, by mid price with gap, width and utilization, by single prices or ranges, as a Uniswap v3 like range, by marginal prices or by y intercepts has the buy and sell range, marginal prices and amounts that this description means; contradicting parameters are rejected. Conversion to and from dictionaries and the parameters of the simulator keep these values; rescaling scales prices and intercepts and keeps amounts; setting the value fills in missing amounts. The original is unchanged. Return series over paths follow their definition.",
     ["inputs", "configurations"], "all combinations of ways of describing a strategy, over ranges, prices, amounts (also zero) and scales",
     "Tests build a handful of strategies; the descriptions interact (marginal price with intercept, zero amounts, narrow ranges).", [HH + "strategym.py"],
     [("strategies", "strategy.from_mgw/from_sb/from_u3/from_dct/__init__"), ("conversions", "strategy.dct/p/rescale_strat/set_tvl/dr/drr")], GRID, GNOTE)
prop("H02", "Simulating a strategy along a price path trades exactly when the price crosses its orders",
     "Along every price path a simulated strategy buys when the price falls through its buy range and sells when it rises through its sell range, by exactly the amounts the curve trades up to that price, nothing otherwise; what one order receives the other can sell. Strategies are rescaled to the first price as configured; points without a positive price are skipped. Reported balances, marginal prices, value and hodl value at each point agree with that history. Start conditions give the strategy, the path and one evenly spaced time for each of its points.",
     ["histories", "inputs"], "all price paths up to a length over a grid of prices around the ranges, for ranges and amounts of each shape",
     "Tests simulate single long paths; the order of crossings, partial fills and refills matters.", [HH + "simulation.py"],
     [("simulation", "run_sim"), ("start conditions", "StartConditions")], HIST, "Complete over all price sequences on the listed grid and depth, judged against an independently written reference.")
prop("H03", "Parameter objects resolve values, defaults and unknown names as configured",
     "A parameter object returns the value last set, or else its default; unknown names raise or give None as requested. Constructing it from dictionaries, parameter objects and defaults in every combination keeps all given values, independent of the originals; setting and adding values and defaults act on exactly the named parameters.",
     ["histories", "configurations"], "all sequences of operations up to a depth over objects with and without defaults",
     "Tests use a few objects; lookups before changes and shared defaults need sequences.", ["carbon/tools/params.py"],
     [("parameters", "Params")], HIST, "Every history over the listed alphabet and depth is executed and judged step by step.")
prop("H04", "Shared variables behave like their value, for all of their holders",
     "A shared variable can be used like the value it holds in arithmetic, comparison, truth, rounding and conversion, also with another shared variable. In-place operations and setting a value change it for all holders and give the same results as on plain values; all other operations leave it unchanged.",
     ["histories", "inputs"], "all sequences of operations up to a depth and all operand pairs, also of other types",
     "Tests run a few operations on single values.", [HH + "sharedvar.py"],
     [("shared variables", "SharedVar")], HIST, "Every history over the listed alphabet and depth is executed and judged step by step.")
prop("H05", "Number, pair, version and Uniswap v3 representations are exact where they claim to be",
     "Compact floats represent a number with the given mantissa and exponent bits, rounded down with an error below one unit, and reject exactly what does not fit. Bit counts are exact for all integers; range checks classify numbers by their margin to the limits and raise or print by level. Token scales, primary pairs and version comparison follow their definition. The Uniswap v3 calculator gives ticks, prices, liquidity and reserves in token units consistent with each other and with the curve.",
     ["inputs"], "numbers around every power of two and at the limits, all bit sizes, decimals, ticks and version triples of the grid",
     "Tests use a few numbers; errors sit at powers of two, limits and tokens of unusual decimals.",
     [HH + "floatint.py", HH + "soltest.py", HH + "version.py", "carbon/tools/univ3calc.py", "carbon/tools/simplepair.py", "carbon/tools/tokenscale.py"],
     [("compact floats", "CarbonFloatInt"), ("bits", "SolTestBase"), ("versions", "require_version"), ("Uniswap v3", "Univ3Calculator"), ("pairs", "SimplePair")], GRID, GNOTE)
prop("H06", "Price paths and data files are generated, interpolated and stored faithfully",
     "Generated price paths follow the formula for drift, volatility and time step from the start value, as paths or tables. Interpolation returns every given point and, between them, evenly spaced points on a bridge of the given (or estimated) volatility, at about the sample period. Reading price data gives the selected series, inverted, normalized and cut to the period as requested. What is saved to a file, text or binary, compressed or not, is loaded back unchanged.",
     ["inputs", "configurations"], "all small point lists and sample periods, parameter combinations with fixed noise, all save and load modes",
     "Tests check the shape of the results on one path.", [HH + "pathinterpolation.py", HH + "pathgenerator.py", HH + "pdread.py", HH + "fls.py"],
     [("interpolation", "PathInterpolation.interpolate/gaussian_bridge"), ("generation", "PathGenerator"), ("reading", "pdread/pdcols"), ("files", "fsave/fload/join")], GRID, GNOTE)
prop("H07", "Price data cache and tables: a query returns what the service said, from cache exactly as configured",
     "A direct query asks the service once and returns its answer, or reports the failure by raising or with None as configured. Access through the cache returns what is stored for exactly this item without asking the service; if there is nothing readable stored it asks the service when reading or updating on failure is allowed (storing the answer only with update and only if it succeeded), and else reports the miss. Tables of several pairs have the data of each pair in its own column, for every frequency and time range, as raw data or tables.",
     ["histories", "faults"], "all sequences of queries with all cache settings and all failure responses of the service",
     "Tests cannot reach the network, and cache errors only show in sequences of queries with failures between.", [HH + "cryptocompare.py"],
     [("cache", "CryptoCompare.cache/write_cache/query/cache_coinlist"), ("tables", "CryptoCompare.query_freqlypair/aggr_query/reformat_raw_df")], HIST + " and a model of the service",
     "Complete over the listed histories, settings and failure kinds; the service is a model.")
prop("H08", "Widget managers hold exactly the values of their widgets",
     "The check box, drop down and slider managers start with the given values, ranges and states, and give the values of their widgets by position, identifier, label and object, also after every change; lists of the wrong length and contradicting arguments are rejected.",
     ["histories"], "all sequences of user and program changes up to a depth",
     "Tests create widgets and read initial values.", [HH + "widgets.py"],
     [("managers", "CheckboxManager/DropdownManager/PcSliderManager")], GRID, GNOTE)

SDK = ["carbon/sdk/sdkbase.py", "carbon/sdk/carbonsdk0.py", "carbon/sdk/carbonsdk.py", "carbon/sdk/sdktoken.py"]
prop("E01", "SDK client: every call transmits its arguments and returns the service's answer or its error",
     "Every SDK call sends exactly one request to the configured address with its name and arguments, returns the result of exactly this request, synchronously or asynchronously as configured, and reports failures, malformed replies and invalid calls as errors without losing other calls. Results of asynchronous calls can be collected in any order.",
     ["histories", "schedules", "faults"], "all sequences of calls, collection orders and failures, over all endpoints and modes",
     "Tests cannot reach the service; the interplay of pending calls and failures needs sequences.", SDK[:2],
     [("client", "SDKBase.req/call/callapi0"), ("results", "CarbonSDK0.result"), ("endpoints", "CarbonSDK0")], HIST + " and a model of the service",
     "Complete over the listed histories and failures; the service is a model in the check.")
prop("E02", "Tokens and token containers: amounts convert exactly and every token is found by any name",
     "Conversion between token amounts and wei loses nothing within the decimals of the token, in both directions. A container finds each token by ticker, address or object and nothing else, reports duplicates, and can be restored from its list.",
     ["inputs"], "all amounts over many scales and decimals, all containers of a few tokens with all lookups",
     "Tests convert a few amounts of common tokens.", SDK[3:],
     [("tokens", "SDKToken.t2w/w2t"), ("containers", "TokenContainer")], GRID, GNOTE)
prop("E03", "Market info, trades and strategies through the SDK use the convention of the pair",
     "For a pair in either convention, market data (liquidity, prices, depth, ranges), prepared trades, and creating, listing and deleting strategies give the service the right tokens, amounts and prices, and return the service's answers converted to the convention of the pair, so that any history of operations leaves the expected strategies with the expected buy and sell orders.",
     ["histories", "configurations"], "all pairs and conventions, all sequences of strategy operations up to a depth, all trade directions and amounts",
     "Tests cannot reach the service, and a wrong inversion cancels out in a round trip of a single call.", SDK[2:3],
     [("market", "CarbonSDK.mGetRangeByPair/mGetMarketDepth/mPrepareTrade"), ("strategies", "CarbonSDK.mCreateStrategy/mGetUserStrategies")], HIST + " and a model of the service",
     "Complete over the listed histories; the service is a model in the check.")
prop("E04", "Encoded orders decode to the order they encode, and import as order UI objects",
     "Encoding an order by liquidity, lowest, highest and marginal price into its contract form and decoding gives the same order, with the contract's precision, the capacity implied by the marginal price. Strategies returned by the service become order UI objects with their prices, amounts and pair, whatever tokens are named by; descriptions of orders and strategies state the tokens and the prices in the stated units.",
     ["inputs", "configurations"], "all orders over ranges, marginal prices and amounts; strategies with full, partial and empty orders, tokens given as tickers or addresses",
     "Tests import one recorded strategy.", SDK[2:3] + ["carbon/helpers/carbon_order_ui.py"],
     [("encoding", "EncodedOrder.encode/encode_yzAB/decode"), ("import", "CarbonOrderUI.from_SDK")], GRID, GNOTE)

ANA = ["carbon/simulators/sim_analytics.py"]
prop("A01", "Simulated trades and effective prices are those of the market, and nothing is executed",
     "For every book and size, the simulated trade against the sell or buy side gives the amount that the best split over its orders gives, and the effective price is that amount over the size in the convention of the pair, or the value for missing liquidity; whether simulator, pair and token are given or default; quotes leave the simulator's orders unchanged. The order book built from such trades has prices that move against the trader.",
     ["inputs", "configurations"], "all small books of wide, narrow and flat orders, sizes below, at and beyond the liquidity, all ways of giving the arguments",
     "Tests look at one book through its default pair.", ANA, [("simulated trades", "Analytics.simulate_trades"), ("effective prices", "Analytics.effective_price")], GRID, GNOTE)
prop("A02", "Order book data and approximate liquidity follow their definitions",
     "An order book over trade sizes and amounts gives effective and marginal prices (also reversed), marginal liquidity whose area is the traded amount, units and sides, the same in charts, tables and explanation; sizes beyond the liquidity are cut off and missing amounts never shift the others. The approximate liquidity per price interval is the sum over the orders of each side of the pair, in the chosen token. Vector helpers follow their definition.",
     ["inputs"], "all small vectors with every pattern of missing values, all small books on both sides, order sets of several pairs over price grids",
     "Tests check a few numbers of one book.", ANA, [("order book", "OrderBook"), ("approximate liquidity", "OrderBook.calc_liquidity_approx"), ("helpers", "Analytics.truncate/midpoints/diff/linspace0")], GRID, GNOTE)

SRV = ["resources/sdk/server/sdkserver.mjs", "resources/sdk/server/sdkserver_dispatch.mjs"]
NODE = "stateless exploration of the unchanged server modules under a controlled scheduler: every request, completion of an outside call, timer and clock step is a step of the history, and all histories within the bounds are executed"
NNOTE = "Complete over the listed bounds at the granularity at which the server can be interrupted (between events; node runs each to completion). Express, body-parser, ethers and the Carbon SDK are stand-ins that record and delay; their own behaviour is trusted."
prop("N01", "SDK server: every call in flight gets its own answer, once, under every interleaving",
     "Whatever requests are in flight, and in whatever order the calls they make complete or fail: each asynchronous request gets a request id of its own, polling it says 'awaiting' until its call is complete and from then on, at every poll, returns exactly that call's result (or error); each synchronous request is answered exactly once, with its own result, when it is complete. Unknown ids are reported as unknown. A failing call never terminates the server or disturbs others.",
     ["schedules", "histories"], "all interleavings of requests, completions, failures and polls, also of requests in the same millisecond and with a clock that is set back",
     "There are no tests of the server, and the order of completions is not under a test's control.",
     SRV, [("asynchronous results", "app.post('/api/ascall/:func'), app.get('/api/result/:reqid')"), ("synchronous calls", "app.post('/api/scall/:func')")],
     NODE, NNOTE)
prop("N02", "SDK server: authorized requests are executed exactly as asked, everything else is refused",
     "Every function of the API makes exactly the calls of the Carbon SDK (or token contracts) it stands for, with the parameters of the request in their places and addresses in checksum form, and returns what they returned; lists give one result per entry, in the order of the request. Requests without the server's token are answered 401 and do nothing; unknown functions, invalid addresses and failures of the SDK or of a contract are reported as errors with their reason, in one reply, and the server goes on serving. A transaction is submitted once. Without a wallet everything works except signing.",
     ["inputs", "histories", "configurations"], "every function with every kind of arguments and results, every completion order of bulk calls, every route with every wrong token",
     "There are no tests of the server; errors, partial failures and missing configuration are exactly what ordinary use does not show.",
     SRV, [("dispatch", "sdkserver_dispatch.mjs dispatch()"), ("transactions", "signsubmittx()"), ("ERC20", "app.post('/api/erc20/:func')"), ("authorization", "token comparison in every route"), ("start", "initialize()")],
     NODE, NNOTE)
prop("N03", "SDK client and SDK server agree",
     "Everything the Python client can ask arrives at the Carbon SDK as meant and its answer arrives at the caller: the names of functions and parameters the client sends are those the server reads, for markets, trades, strategies, token contracts and transactions, synchronously and asynchronously; errors and a refused token arrive as errors, a result not yet available as such.",
     ["histories", "inputs"], "every call of the client through the real server, strategy histories, pairs of asynchronous calls in every order of completion and polling",
     "Client and server are written in different languages and tested, if at all, apart; a renamed parameter shows only when both are run.",
     SRV + ["carbon/sdk/carbonsdk0.py", "carbon/sdk/sdkbase.py", "carbon/sdk/carbonsdk.py"], [("client calls", "CarbonSDK0 methods"), ("server", "dispatch()")],
     "explicit enumeration of client calls and histories executed on the real client and the real server together, with every completion under control of the explorer", NNOTE)

WPF = ["resources/whitepaper/CarbonCalculations.py"]
prop("W01", "The white paper's equations describe the pool, and the simulator's curves obey them",
     "Every equation in the formula collection holds for every pool and trade: the invariants in all parameterizations, swap and marginal price equations, definitions and relationships between Q, Gamma, B, S, w, prices, intercepts, asymptotes and the pool constant; it gives the variable its description says, as a function of exactly the variables it names. The order curves of the simulator obey the same equations, for their parameters, marginal and effective prices and trades, also beyond the range where asked without bounds.",
     ["inputs", "configurations"], "pools over thirty orders of magnitude of price and size, from narrow to very wide ranges, at every position and for trades in both directions",
     "The collection is not tested at all; each formula is derived from others by a solver that picks one of several solutions.",
     WPF + ["carbon/carbon_order_ui.py"], [("equations", "FORMULAS"), ("curves", "CarbonOrderUI.from_prices and its functions")],
     "exhaustive enumeration of the states (pool, position, trade) of an independently derived reference model within the bounds; every equation and the real curve are evaluated in every state", "Complete over the listed grids in 40 digit arithmetic, which leaves no room for an equation that is not an identity to pass in all of them; not a symbolic proof.")
prop("W02", "The formula library keeps what it is given, and equation arithmetic is correct",
     "Whatever sequence of adding, replacing, aliasing, importing and change of default namespace: every key gives the formula, title, comment, tags and kind last stored under it, namespaces apply exactly where documented, aliases are recognised as such, missing keys give an error or nothing as configured, and the text filter replaces exactly the formulas that exist. Tag lists ignore case and blanks and never leak into others. Adding, subtracting, multiplying, dividing, raising, negating, inverting, swapping, isolating, substituting in and simplifying equations gives equations with both sides treated alike.",
     ["histories", "inputs"], "all histories of library operations up to the bound, all small tag lists, all pairs of a set of equations and scalars under all operators, on both sides",
     "There are no tests of these modules; the order of operations and namespaces matter.",
     ["resources/whitepaper/formulalib.py", "resources/whitepaper/taglib.py", "resources/whitepaper/sympyx.py"], [("formula library", "Formulas"), ("tags", "Tags"), ("equations", "XEq, subs")], HIST, "Complete over the listed histories and combinations.")

prop("T01", "The test generator turns every section of every notebook into exactly one test that runs that section",
     "Every notebook whose name marks it as a test, and no other file, becomes a test file: its preamble runs when the file is loaded, every section becomes a function of its own that runs exactly the section's code, named after its title, and run as a test unless the title or the notebook's options say otherwise. Sections of the same title, sections without code, headings, comments and options never lose, merge or suppress tests, and no notebook affects another. Wrong options are errors; sources stay as they are.",
     ["inputs", "configurations"], "all notebooks over an alphabet of headings, sections, options, statements, blocks and comments up to the bound, converted next to each other; file names of all forms",
     "The generator itself is not tested: a section it loses is a test that silently no longer runs.",
     ["resources/NBTest/ConvertNBTest.py"], [("conversion", "process_code and the main loop"), ("names", "filterfn, funcn")],
     "explicit enumeration of all notebooks (sequences of lines) up to the bound; the unchanged script converts them and the generated files are executed and compared with what the sections say", "Complete over the listed notebooks. Statements over several lines are covered as blocks; text within multi-line strings is not.")
