"""source of properties.jsonl and MANIFEST.json: python3 tools/props.py"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, level="model_checking", state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, level=level, state=state, observe=observe))


SIMF = ["carbon/simulators/carbon_simulator.py", "carbon/order.py"]
RT = ["carbon/routers/exact_base_router.py", "carbon/routers/exact_router_x0y0n.py", "carbon/routers/alpha_router.py",
      "carbon/routers/fast_router.py", "carbon/routers/base_router.py"]
SIMTECH = "explicit-state BFS over operation histories of the real simulator, in lock-step with a reference curve/order-book model"
SIMNOTE = ("Every history over the listed books, alphabets and depths is executed on the real simulator and judged transition by "
           "transition; trusts the reference model in mc/ref.py and mc/simx.py and tolerances above the 12-decimal rounding.")

prop("S01", "Executed trades conserve tokens",
     "When a trade executes, each order it is routed through loses exactly the amount of the sold token recorded for that route, and the order linked to it gains exactly the amount of the other token the trader paid on that route. No other order's balance changes, and no order appears or disappears. This holds for all matching methods, by source and by target, for any sequence of trades.",
     ["histories", "inputs", "configurations"], "every sequence of trades over every order book, matching method, direction and amount",
     "The tests execute a few fixed trades and compare a few numbers; conservation has to hold for every order after every trade of every history, including overfilled, empty, disabled and linked orders.",
     SIMF + RT, [("trade execution", "CarbonSimulatorUI.amm_sells/amm_buys and the routing they call"), ("order balances", "Order.y")],
     SIMTECH, SIMNOTE)
prop("S02", "Quotes and failed operations change nothing",
     "A trade requested without execution leaves every order unchanged. A trade, strategy creation or deletion that fails (reports no success) leaves all orders and the trade log unchanged, and without the raise-on-error option it reports the failure instead of raising. State and liquidity queries change nothing.",
     ["histories", "inputs", "fault_sequences"], "every operation that is a quote, a query or fails, at every reachable state",
     "Tests look at return values of failing calls, never at whether something was left behind, and cannot try each failing call in each state.",
     SIMF, [("quote path", "amm_sells/amm_buys with execute=False"), ("error paths", "add_strategy, add_order, _trade")], SIMTECH, SIMNOTE)
prop("S03", "Strategies are created, linked and deleted as a unit",
     "Successfully adding a strategy or an order creates exactly two orders, selling the two tokens of the pair and linked to each other, with ids never used before; a failed add creates none. Deleting any order removes exactly it and its linked order and returns the ids of the removed orders; deleting an unknown id changes nothing and returns an empty list. At every time each order's linked order exists and links back to it.",
     ["histories", "inputs"], "every sequence of adding, failing to add, trading and deleting, by either id of a strategy",
     "Tests delete one fixed strategy; the link structure depends on the whole history and on which id is used.",
     SIMF, [("strategy creation", "CarbonSimulatorUI.add_strategy/add_order"), ("deletion", "CarbonSimulatorUI.delete_order/delete_strategy")], SIMTECH, SIMNOTE)
prop("S04", "Balances stay within capacity; ranges never change",
     "At all times every order holds between zero and its capacity. Its price range, token and pair never change; its capacity never falls, and a trade raises it only when incoming tokens exceed it, in which case it becomes equal to the new balance.",
     ["histories", "inputs"], "every sequence of trades and strategy operations, including draining and overfilling orders",
     "Tests check end states of a few trades; the invariant has to survive every history of draining, refilling and overfilling.",
     SIMF, [("overfill", "CarbonSimulatorUI._trade"), ("curve parameters", "Order")], SIMTECH, SIMNOTE)
prop("S05", "Trade records tell what happened",
     "Every successful trade returns, and appends to the trade log, one record per route plus one aggregate: amounts of the aggregate are the sums over its routes, the price is the ratio of the traded amounts in the convention of the pair, and tokens, pair, unit, route ids, route count, trade numbering and execution flag are those of the trade. Earlier records are never altered, the trade number increases by one per successful trade, and a trade by source that fills less than requested is flagged partial.",
     ["histories", "inputs"], "every trade of every history, all matching methods and phrasings",
     "Tests compare full records for two tiny scenarios only.",
     SIMF, [("trade log", "CarbonSimulatorUI.trades / numtrades"), ("result data frame", "CarbonSimulatorUI._trade")], SIMTECH, SIMNOTE)
prop("S06", "Limit orders execute exactly when the limit is met",
     "A trade with a limit price executes if and only if its average price is at least as good for the trader as the limit, quoted in the convention of the trade's pair; a trade with a limit amount behaves as if the limit were that amount per requested amount. A missed limit is flagged and changes no order, and giving both limits is rejected. This holds for all matching methods, both directions and both orientations of the pair.",
     ["histories", "inputs", "configurations"], "every trade with limits on either side of the obtainable price, at every reachable state",
     "Tests use a few hand-picked limits with the exact router; direction, orientation, matching method and limit kind multiply.",
     SIMF + ["carbon/pair.py"], [("limit check", "CarbonSimulatorUI._trade"), ("price comparison", "CarbonPair.limit_is_met")], SIMTECH, SIMNOTE)
prop("S07", "Trades use only eligible orders",
     "A trade is only ever routed through orders of the requested pair (in either orientation) that sell the token the AMM gives out, are enabled and non-empty, and are among the positions the caller allowed, if any were named; each at most once. Negative amounts mean the opposite direction with all other arguments unchanged.",
     ["histories", "inputs", "configurations"], "every trade over multi-pair books with every selection of positions",
     "Tests use one pair and one selection.",
     SIMF, [("order selection", "CarbonSimulatorUI._trade use_positions"), ("sign handling", "amm_buys/amm_sells")], SIMTECH, SIMNOTE)
prop("S08", "Equivalent ways of asking give the same result",
     "The same trade phrased as AMM-sells, trader-buys, AMM-buys of a negative amount, with an explicit or reversed pair, a pair object or another numeric type has the same success, fills and effect on the book, with the price inverted for a reversed pair. The same liquidity described from either token of the pair, with range ends in either order, or in the reversed pair's price convention produces the same market. A pair given once for the simulator is the pair of every call that names none, and without any pair calls are rejected.",
     ["inputs", "histories", "configurations"], "every pair of equivalent phrasings at every reachable state of the bounded books",
     "A relation between executions; no test compares phrasings.",
     SIMF + ["carbon/pair.py"], [("direction and sign", "amm_buys/amm_sells/trader_buys/trader_sells"), ("price conversion", "CarbonPair.convert_price")],
     "exhaustive enumeration of equivalent phrasings at every BFS-reachable state of the real simulator (relational check)",
     "All phrasings of the bounded grid are executed on copies of the same state and must agree; independent of any reference model.")
prop("S09", "Exact routing gives the trader the best possible price",
     "With the exact matching method, the split of a trade over the eligible orders gives the trader the most output for the given input, or costs the least input for the given output, that any split could. In particular, after the trade all partly used orders stand at the same marginal price, no unused order is better and no emptied order is worse than it.",
     ["inputs", "histories"], "every order book and trade amount in the grids, by source and by target, also after earlier trades",
     "Tests compare with a handful of recorded outputs; optimality is a statement about all alternative splits.",
     SIMF + RT, [("exact matching", "ExactRouterX0Y0N / ExactBase.match"), ("curve quantities", "Order.x0/y0/n/k/a/x")], SIMTECH,
     SIMNOTE + " The optimum is computed independently by water-filling over marginal prices.")
prop("S10", "Alpha routing respects its threshold and is optimal on what it uses",
     "With the alpha matching method a trade uses at most the threshold number of orders, succeeds exactly when that many orders can fill it, and splits optimally over the orders it uses. With a threshold at least the number of eligible orders it is optimal overall, like exact matching.",
     ["inputs", "histories", "configurations"], "every book, threshold and amount in the grids, by source and by target",
     "Tests check two thresholds on one book.",
     SIMF + RT, [("order preselection", "AlphaRouter.match_by_src/match_by_target"), ("exact matching on a subset", "ExactBase.match")], SIMTECH, SIMNOTE)
prop("S11", "Fast routing fills orders greedily from the best rate",
     "With the fast matching method the full amount is allocated to orders ranked by the rate each would give for the requested amount, best first, each filled to its capacity before the next is used. At most one order is left partly filled.",
     ["inputs", "histories"], "every book and amount in the grids, by source and by target",
     "Tests check the totals of one book.",
     SIMF + ["carbon/routers/fast_router.py"], [("greedy matching", "FastRouter.match")], SIMTECH, SIMNOTE)
prop("S12", "Every fill is priced on the order's own curve",
     "Whatever the matching method, the amounts exchanged on a route are exactly those of moving the order's balance down its curve: the marginal price depends on balance over capacity, runs from the start to the end price of the order's range, and the fill never exceeds the balance. This holds at every scale of order size and trade size, for flat, narrow and wide ranges and for partly filled orders.",
     ["inputs", "histories"], "every order shape and size in the grids and every amount, at every reachable state",
     "Tests use a few order sizes well above one token; scale and shape are unbounded.",
     SIMF + RT, [("swap formulas", "ExactBase.dxdy, FastRouter.amt_by_*, Order curve properties")], SIMTECH, SIMNOTE)
prop("S13", "Liquidity limits and partial fills",
     "A trade within the liquidity of the eligible orders succeeds and fills the requested amount. A trade beyond it is rejected, unless partial fills are allowed, in which case all available liquidity is traded. This holds for all matching methods, by source and by target (for alpha routing, the liquidity of the best orders up to the threshold counts).",
     ["inputs", "histories", "configurations"], "amounts below, around and above the liquidity, with and without partial fills, at every reachable state",
     "Tests over-request once per side on one book and one router.",
     SIMF + RT, [("liquidity check", "BaseRouter.sufficient_liquidity_exists, ExactBase.match, FastRouter.match"), ("partial fills", "support_partial")], SIMTECH, SIMNOTE)
prop("S14", "Trading is path independent and closed loops never pay",
     "Executing a trade in several consecutive pieces exchanges the same total amounts and leaves the same order book as executing it at once (exact routing, alpha routing without a binding threshold, and any routing over a single order). In markets where every strategy bids below every ask, no sequence of trades that returns the trader to the same amount of one token leaves them with more of the other.",
     ["histories", "inputs"], "every split of every trade in the grids and every closed loop up to the depth bound, at every reachable state",
     "A relation between histories; no test executes the same trade in two ways.",
     SIMF + RT, [("curve state", "Order.y after trades"), ("routing", "ExactBase.match")],
     "BFS over trade histories of the real simulator with a relational check (split vs whole) and an invariant over all closed loops",
     "All splits and loops of the bounded grids are executed; trusts only floating tolerances.")
prop("S15", "State and liquidity views mirror the order book",
     "The state query lists every order exactly once with its true token, pair, balance, capacity, range, marginal price in the pair's convention, link and disabled flag, and returns UI order objects with the same balances, linked like the orders, together with the complete trade log. The liquidity query reports, per pair and token, the sum of the balances of all orders.",
     ["histories"], "both views at every state reachable by adding, trading and deleting",
     "Tests print or spot-check the views on one state.",
     SIMF + ["carbon/carbon_order_ui.py"], [("state view", "CarbonSimulatorUI.state"), ("liquidity view", "CarbonSimulatorUI.liquidity")], SIMTECH, SIMNOTE)
prop("S16", "Simulators are independent of each other",
     "Any number of simulators, with the same or different matching methods and even created from the same pair object, can be operated in any interleaving, and each behaves exactly as if it were alone.",
     ["schedules", "configurations"], "every interleaving of two operation programs over two simulators",
     "No test runs two simulators in an interleaved fashion; shared mutable defaults and class-level router state only show there.",
     SIMF + RT, [("router state", "BaseRouter.orders, AlphaRouter.exact_router"), ("pair objects", "CarbonPair.create")],
     "exhaustive exploration of all interleavings of bounded programs over two real simulators, compared with solo runs",
     "Complete over all merge orders of the listed programs (3 to 4 steps each).")
prop("S17", "Added orders have the requested parameters",
     "An added order holds the given amount, sells the given token, and has as range the given prices converted to its own token, whichever end is given first; its capacity is the given one, the balance by default, or the one that puts its marginal price at the requested marginal price. Missing prices give a disabled order; unknown tokens, half-specified ranges, capacities below the balance and giving both capacity and marginal price are rejected.",
     ["inputs", "configurations"], "every combination of the parameter grid, from either token, in either orientation of the pair",
     "Tests add a few strategies; the parameter combinations multiply.",
     SIMF + ["carbon/pair.py"], [("order creation", "CarbonSimulatorUI.add_strategy/add_order/_add_order_sell_tkn"), ("capacity from marginal price", "Order.__post_init__")], SIMTECH, SIMNOTE)
prop("S18", "Error mode, verbosity and debugging do not change behaviour",
     "With the raise-on-error option an operation raises exactly when it would otherwise report a failure, and leaves the same state. Verbose and debug output never change the result of an operation or the state.",
     ["configurations", "histories"], "every operation of the alphabet, in every error and verbosity mode, at every reachable state",
     "Tests run in one mode.",
     SIMF, [("error handling", "raiseonerror / verbose / debug parameters")],
     "lock-step exploration of the same histories in all option settings of the real simulator",
     "Complete over the alphabet and depth; compares executions, no oracle needed.")

prop("S19", "An order is the same curve however it is described, in memory and in files",
     "An order given by its two prices in either sequence, by the square root parameters B and S, with its capacity given as such, under its alternative name, by the marginal price or not at all (then it is full), as numbers or text, has the same range, balance and capacity, satisfies the same invariant, and trades identically through every router. Incomplete descriptions are rejected. Orders read from JSON or CSV files are exactly the first orders listed there; with integer arithmetic they are the fixed point values of the same order, and amounts computed with them are off by rounding only, and never in favour of the trader.",
     ["inputs", "configurations"], "every description of every curve of the grid; every file style, number of orders and arithmetic, in all routers",
     "No test constructs orders other than through one simulator call, and none reads orders from files.",
     ["carbon/order.py"] + RT, [("order construction", "Order.__post_init__"), ("files", "BaseRouter.make_orders_from_file"), ("integer amounts", "FastRouter.amt_by_src/amt_by_target")],
     "exhaustive enumeration of the descriptions of a bounded set of curves on the real code, judged by exact reference mathematics",
     "Complete over the grid; exact rational arithmetic decides the rounding direction.")

exec(open(os.path.join(HERE, "tools", "props2.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "props2.py")) else None

NOT_APPLICABLE = globals().get("NOT_APPLICABLE", [])


def main():
    import subprocess
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])
            if p["state"]:
                a["state"] = p["state"]
            if p["observe"]:
                a["observe_at"] = p["observe"]
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                    quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=a)) + "\n")
    checks = [dict(property=p["id"], quick_cmd="./check %s quick" % p["id"], thorough_cmd="./check %s thorough" % p["id"],
                   technique=p["technique"], level=p["level"], level_note=p["note"]) for p in P if p["technique"]]
    m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=NOT_APPLICABLE,
             notes="Checks run under /opt/venv/bin/python against /repo's working tree; no build step and no hooks. "
                   "./check --replay <file> re-executes a recorded violation.")
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


main()
