#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list lives here so that it can be edited readably)."""
import json, os
B = "contracts/sumtree-orderbook/src/"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = {"id": id, "title": title, "statement": " ".join(statement.split()),
         "quantifier": {"over": over, "text": " ".join(text.split())},
         "why_tests_cant": " ".join(why.split()),
         "anchors": {"files": [B + f for f in files],
                     "mechanism": [{"name": n, "where": B + w} for n, w in mech]}}
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m, "where": B + w} for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)

prop("C01", "Tick prices follow the exact, strictly increasing price ladder",
 """For every tick inside the allowed range the tick-to-price conversion succeeds and yields exactly the documented ladder value: tick 0 is price 1,
 every 9,000,000 ticks multiply the price by ten, and inside such a band each tick adds one fixed step (one millionth of the band's lower power of ten above tick 0; one ten-millionth of the power of ten at the end of the band nearer to tick 0 below it).
 A higher tick always has a strictly higher price, no price is zero, and every tick outside the allowed range is refused.""",
 ["inputs"], "all 2^64 tick indices; all pairs of ticks in range",
 "290 million ticks; the tests check a few dozen points, so an off-by-one at a band border or in the negative range at an untested tick is invisible",
 ["tick_math.rs", "constants.rs"], [("tick_to_price", "tick_math.rs"), ("pow_ten", "tick_math.rs")], observe=["tick_math::tick_to_price", "tick_math::pow_ten"])

prop("C02", "Amount/price conversions are exact roundings and total on the ladder",
 """Converting an amount at a price multiplies for asks and divides for bids; rounding down returns the exact mathematical floor and rounding up returns the ceiling of the result (for division: of the quotient at 18 decimals), so a rounded-down result is never above and a rounded-up result never below the 18-decimal value, by less than one unit.
 A zero amount converts to zero. For every 128-bit amount and every in-range tick price the conversion succeeds; it never wraps around.""",
 ["inputs"], "all 128-bit amounts, all 256-bit decimal prices, both directions, both roundings",
 "the tests use round numbers; overflow limits and rounding on the last unit depend on particular amount/price pairs",
 ["tick_math.rs"], [("amount_to_value", "tick_math.rs"), ("multiply_by_price", "tick_math.rs"), ("divide_by_price", "tick_math.rs"), ("RoundingDirection::round", "tick_math.rs")],
 observe=["tick_math::amount_to_value", "tick_math::multiply_by_price", "tick_math::divide_by_price"])

prop("C03", "Limit orders are accepted only when valid and stored faithfully",
 """A limit order is accepted only if its tick is in range, its quantity is positive, its bounty (if any) is at most 1%, and the attached funds are exactly one coin of the deposit denomination of its direction in exactly the stated quantity; any other request fails and changes nothing.
 An accepted order is stored with the sender as owner, the given tick, direction, quantity and bounty and the current block time, queued behind everything ever placed on that tick and direction, and raises the resting liquidity of that tick and direction, and the total placed there, by exactly its quantity.
 No other order, tick, direction, role, fee or setting changes.""",
 ["inputs", "histories"], "all placement messages (tick, direction, quantity, bounty, funds, sender) against all reachable states",
 "tests place a handful of orders on fresh books; they do not cover all funds/tick combinations nor compare the untouched rest of the state",
 ["order.rs", "contract.rs"], [("place_limit", "order.rs"), ("dispatch_place_limit", "contract.rs")], observe=["execute PlaceLimit"])

prop("C04", "Order identifiers are never reused and orders never overwrite each other",
 """Every accepted limit order receives an identifier strictly greater than that of every order accepted before it, on any tick.
 A new order never replaces a resting one, and a resting order is always found under its own tick and identifier.
 Between placement and removal an order's tick, identifier, direction, owner, bounty, placement time and originally placed quantity never change, and only a claim or cancellation that names the order can change or remove it.""",
 ["histories"], "all sequences of operations",
 "uniqueness is a statement about whole histories; tests run at most a few operations",
 ["order.rs", "state.rs"], [("new_order_id", "state.rs"), ("place_limit", "order.rs"), ("claim_order", "order.rs"), ("cancel_limit", "order.rs")],
 state=[("ORDER_ID", "next identifier", "state.rs"), ("orders", "resting orders by (tick, id)", "state.rs")])

prop("C05", "Cancellation: only by the owner, only while unfilled, with exact refund",
 """A cancellation succeeds only for an existing order, only when sent by that order's owner without funds, and only if no part of the remaining order has been filled.
 It pays exactly one transfer: the order's remaining quantity, in its deposit denomination, to the owner; the order disappears and the resting liquidity of its tick and direction drops by exactly that quantity.
 Other orders, other ticks' liquidity and all settings stay as they were.""",
 ["inputs", "histories"], "all cancel messages against all reachable states (fills, earlier cancels and claims in any order)",
 "whether an order is (partially) filled depends on the whole history of fills and cancellations in front of it",
 ["order.rs", "tick.rs"], [("cancel_limit", "order.rs"), ("sync_tick", "tick.rs")], observe=["execute CancelLimit"])

prop("C06", "Claims pay exactly what was filled, split between owner, claimer and fee",
 """A claim on an order pays out the value of exactly the newly filled part of that order, never more than its remaining quantity, at the price of its own tick rounded down, in the denomination opposite to the deposit; if nothing was filled it fails.
 The payout is split exactly: the claimer receives the order's bounty share rounded down, the fee recipient the maker-fee share of the whole payout rounded down, and the owner all the rest; zero parts are not sent and nobody else is paid.
 The order's remaining quantity falls, and its queue position advances, by exactly the claimed part, and it is removed exactly when nothing remains.""",
 ["inputs", "histories"], "all claim messages by any sender, all bounty/fee values, all reachable states",
 "rounding, partial fills and fee/bounty interaction are input dependent; tests use a few round values",
 ["order.rs"], [("claim_order", "order.rs"), ("claim_limit", "order.rs")], observe=["execute ClaimLimit", "execute BatchClaim"])

prop("C07", "Batch claims equal the single claims, and failing entries have no effect",
 """A batch claim of at most 100 entries never fails because of an entry: it processes the entries in order, each succeeding entry has exactly the effect and the transfers of a single claim by the same sender at that point, and an entry that fails adds no transfer and alters no order, resting liquidity, total placed or setting.
 A batch of more than 100 entries, or one sent with funds, is refused entirely.""",
 ["inputs", "histories"], "all lists of entries (valid, invalid, repeated, interleaved) against all reachable states",
 "the combination of failing and succeeding entries is unbounded; the test has a few lists",
 ["order.rs"], [("batch_claim_limits", "order.rs"), ("claim_order", "order.rs")], observe=["execute BatchClaim"])

prop("C08", "Swaps fill each tick at its price, within its liquidity, rounding against takers",
 """In a swap each visited tick supplies the smaller of its resting liquidity and the rounded-down value of the remaining input at that tick's price, and charges for it that amount converted back at the same price rounded up, which never exceeds the remaining input and is never zero (the swap fails rather than take liquidity for nothing); the tick's liquidity falls and its fill progress rises by exactly the supplied amount.
 The swap's output is the exact sum of the supplied amounts, and no tick's other-direction data, no order, no placed total and no setting changes.""",
 ["inputs", "histories"], "all input amounts, both directions, all books of any number of ticks",
 "the loop runs over unboundedly many ticks with rounding at each; tests cover a few small books",
 ["order.rs"], [("run_market_order_internal", "order.rs"), ("run_market_order", "order.rs")], observe=["sudo SwapExactAmountIn", "sudo SwapToTick"])

prop("C09", "Swaps consume ticks strictly best price first and inside the bound",
 """A swap takes liquidity only from ticks between the best price and the bound (the given target tick, or the end of the range), in strict best-price order, and reaches a worse tick only after every better tick with resting liquidity has been emptied.
 A full-range swap that cannot convert all its input (beyond dust worth less than one output unit at the last price) fails; a swap to a target tick may stop there and leave the rest of the input.
 A target on the wrong side of the best price or outside the allowed tick range is refused.""",
 ["inputs", "histories"], "all books, input amounts, directions and target ticks",
 "needs every arrangement of liquidity over ticks; tests have at most a few ticks",
 ["order.rs"], [("run_market_order_internal", "order.rs")], observe=["sudo SwapExactAmountIn", "sudo SwapToTick"])

prop("C10", "Swap requests are validated and settle exactly: minimum output, payment, refund",
 """A swap succeeds only with zero swap fee, with the book's two distinct denominations as input and output, a valid sender, a non-zero input and an output of at least the requested minimum.
 It then pays the sender exactly the computed output in the output denomination and returns exactly the unused input, if any, in the input denomination, nothing else, and reports that same output in its response.
 Input is only kept if used to pay for fills or, when not even one unit of output could be bought with it at the next price, as dust.""",
 ["inputs", "histories"], "all swap messages against all reachable states",
 "settlement depends on amounts and book; tests check single examples",
 ["sudo.rs", "order.rs"], [("dispatch_swap_exact_amount_in", "sudo.rs"), ("validate_output_amount", "sudo.rs"), ("ensure_swap_fee", "sudo.rs"), ("run_market_order", "order.rs")], observe=["sudo SwapExactAmountIn", "sudo SwapToTick"])

prop("C11", "Reported pool liquidity always equals the sum of resting tick liquidity",
 """In every reachable state the liquidity total recorded for each direction equals the sum, over all ticks, of the resting liquidity of that direction, and the pool-liquidity query reports exactly these two totals, each under its deposit denomination.
 Placements, cancellations and swaps move both by the same amount; claims and tick synchronisation move neither.""",
 ["histories"], "all operation histories",
 "an inductive statement over unbounded histories and ticks",
 ["state.rs", "order.rs", "query.rs"], [("add_directional_liquidity", "state.rs"), ("subtract_directional_liquidity", "state.rs"), ("total_pool_liquidity", "query.rs")],
 state=[("DIRECTION_TOTAL_LIQUIDITY", "total per direction", "state.rs"), ("TICK_STATE", "per-tick values", "state.rs")])

prop("C12", "Per-tick conservation: placed = resting + progress + pending cancellations",
 """For every tick and direction, in every reachable state, the cumulative amount ever placed equals the resting liquidity plus the fill progress plus the cancelled quantity not yet folded into the progress.
 The cumulative placed amount and the fill progress never decrease, and the progress never exceeds the cumulative placed amount.""",
 ["histories"], "all operation histories on any number of orders per tick",
 "an inductive invariant linking placement, fills, cancellations, claims and synchronisation; no test states it",
 ["order.rs", "tick.rs", "types/tick.rs"], [("place_limit", "order.rs"), ("cancel_limit", "order.rs"), ("run_market_order_internal", "order.rs"), ("sync_tick", "tick.rs")],
 state=[("TICK_STATE", "TAL, ETAS, CTT, realized cancels", "types/tick.rs"), ("NODES/TREE", "cancelled quantity per tick and direction", "sumtree/node.rs")])

prop("C13", "No resting liquidity lies beyond the best-price pointers",
 """In every reachable state there is no resting bid liquidity on a tick above the recorded best bid tick and no resting ask liquidity on a tick below the recorded best ask tick, so a swap, which starts from these, can reach all liquidity.
 Both recorded ticks always stay inside the allowed tick range.""",
 ["histories"], "all operation histories",
 "depends on arbitrary interleavings of placements, partial sweeps with rounding dust, and cancellations",
 ["order.rs"], [("place_limit", "order.rs"), ("run_market_order_internal", "order.rs")],
 state=[("ORDERBOOK", "next_bid_tick / next_ask_tick", "types/orderbook.rs")])

prop("C14", "Queue positions never overlap: each placed unit is owned at most once",
 """On every tick and direction the queue intervals (position up to position plus remaining quantity) of all resting orders and of all recorded cancellations are pairwise disjoint and lie within the total amount ever placed there, in every reachable state.
 Hence no unit of fill progress can ever be claimed by two orders, nor be both claimed and counted as cancelled.""",
 ["histories"], "all operation histories",
 "pairwise disjointness over unboundedly many orders and cancellations",
 ["order.rs", "sumtree/node.rs"], [("place_limit", "order.rs"), ("claim_order", "order.rs"), ("cancel_limit", "order.rs")],
 state=[("orders", "queue intervals of live orders", "state.rs"), ("NODES", "queue intervals of cancelled orders", "sumtree/node.rs")])

prop("C15", "Tick synchronisation skips exactly the cancelled quantity reached by fills",
 """When the fill progress of a tick has moved since its last synchronisation, synchronising advances it by exactly the cancelled quantity that it reaches: going through the recorded cancellations in queue order, each one not yet accounted for and starting at or before the progress so far moves it on by its full quantity, up to the first one that starts later; when it has not moved, nothing is advanced.
 Each cancellation is counted exactly once, resting liquidity and the placed totals do not change, and synchronising again without new fills or cancellations advances nothing.""",
 ["histories", "inputs"], "all sets of cancellations and all fill amounts, for both directions of any tick",
 "the batched tree walk has many branches that depend on the tree shape; tests use hand-made trees",
 ["tick.rs", "sumtree/tree.rs"], [("sync_tick", "tick.rs"), ("get_prefix_sum", "sumtree/tree.rs"), ("prefix_sum_walk", "sumtree/tree.rs")])

prop("C16", "The cancellation index keeps each cancellation once, in order, with right sums",
 """Recording a cancellation adds exactly one entry with its position and quantity and keeps all earlier entries; the entries stay sorted by position, every inner node's sum is the total of the entries below it and its range spans exactly from the smallest start to the largest end below it, and all parent/child links agree.
 A cancellation that does not overlap an existing entry is never refused, one that lies inside an existing entry is never inserted silently out of order, and the indexes of other ticks and of the other direction do not change.""",
 ["histories", "inputs"], "all insertion sequences of non-overlapping entries, any tree size and shape",
 "tree shapes grow exponentially; the tests build a few dozen trees and random ones with fixed seeds",
 ["sumtree/node.rs", "sumtree/tree.rs"], [("TreeNode::insert", "sumtree/node.rs"), ("TreeNode::split", "sumtree/node.rs"), ("TreeNode::rebalance", "sumtree/node.rs"), ("TreeNode::rotate_left", "sumtree/node.rs"), ("TreeNode::rotate_right", "sumtree/node.rs"), ("TreeNode::sync_range_and_value", "sumtree/node.rs"), ("get_or_init_root_node", "sumtree/tree.rs")])

prop("C17", "The cancellation index stays height-balanced",
 """After every recorded cancellation, at every inner node of the index the recorded height is the true height and the heights of the two subtrees differ by at most one, so lookup and insertion cost stay logarithmic in the number of cancellations.""",
 ["histories"], "all insertion orders",
 "single and double rotations at every depth; tests check specific shapes",
 ["sumtree/node.rs"], [("TreeNode::rebalance", "sumtree/node.rs"), ("TreeNode::rotate_left", "sumtree/node.rs"), ("TreeNode::rotate_right", "sumtree/node.rs")])

prop("C18", "Admin and moderator rights change hands only as authorised",
 """The admin changes only when the address holding the currently open admin offer accepts it, when the admin renounces, or by chain governance; an admin offer can be made or withdrawn only by the sitting admin or declined by the address it names, is used up by acceptance, and lapses when the admin who could withdraw it is replaced or leaves.
 The moderator changes only when the address named in the open moderator offer accepts it, and only the admin can make such an offer; only its addressee can decline it.
 Only the admin can set the maker fee or its recipient and only the admin or moderator can switch the book on or off; every other attempt fails and changes nothing.""",
 ["inputs", "histories"], "all role messages by all senders in all role states",
 "the product of messages, senders and role states over histories; tests check single steps",
 ["auth.rs", "sudo.rs"], [("dispatch", "auth.rs"), ("ensure_is_admin", "auth.rs"), ("ensure_is_admin_or_moderator", "auth.rs"), ("sudo", "sudo.rs")],
 state=[("ADMIN/ADMIN_OFFER/MODERATOR/MODERATOR_OFFER", "roles", "auth.rs")], observe=["execute Auth", "sudo TransferAdmin/RemoveAdmin"])

prop("C19", "While switched off, no trading operation succeeds",
 """While the book is switched off every placement, cancellation, claim, batch claim and every chain-governance message (swaps included) fails without any effect; only role-management messages still work, and these never touch orders, ticks or liquidity.
 The book counts as switched on until it is first switched off, the status query reports exactly this switch, and only a set-active operation changes it.""",
 ["inputs", "histories"], "all messages in all switched-off states",
 "tests try a few messages",
 ["contract.rs", "sudo.rs"], [("execute", "contract.rs"), ("sudo", "sudo.rs"), ("ensure_is_active", "sudo.rs"), ("set_active", "sudo.rs"), ("is_active", "query.rs")], observe=["execute", "sudo", "query IsActive"])

prop("C20", "The maker fee can never exceed 5% and claims can always be paid in full",
 """In every reachable state the stored maker fee is between 0 and 5%, a valid fee recipient is set, and every resting order's bounty is at most 1%; a fee above 5% or an invalid recipient address is refused and leaves the old value.
 Hence bounty plus fee never exceed a claim's payout, and a claim of a filled order never fails for fee reasons; the fee query reports exactly the stored fee.""",
 ["inputs", "histories"], "all fee and recipient updates and all claims",
 "an invariant over histories combined with every payout size",
 ["orderbook.rs", "auth.rs", "order.rs", "state.rs"], [("set_maker_fee", "orderbook.rs"), ("set_maker_fee_recipient", "orderbook.rs"), ("dispatch_set_maker_fee", "auth.rs"), ("dispatch_set_maker_fee_recipient", "auth.rs"), ("get_maker_fee", "state.rs")],
 observe=["execute Auth SetMakerFee", "query GetMakerFee"])

prop("C21", "A quote equals the swap it announces",
 """For every state, input coin and output denomination, the output-given-input query returns exactly the output that a full-range swap of that coin in that state would pay, and fails whenever that swap would fail for a reason other than the minimum output or an invalid sender.
 The query accepts the zero swap fee only.""",
 ["inputs", "histories"], "all states and query arguments",
 "a relational property between two entry points over all states",
 ["query.rs", "sudo.rs", "order.rs"], [("calc_out_amount_given_in", "query.rs"), ("dispatch_swap_exact_amount_in", "sudo.rs"), ("run_market_order_internal", "order.rs")],
 observe=["query CalcOutAmountGivenIn", "sudo SwapExactAmountIn"])

prop("C22", "Solvency: holdings always cover every refund and every claim",
 """Counting everything senders paid in and everything the contract sent out since instantiation, the contract always holds, in each denomination, at least the sum of all resting liquidity deposited in it plus the payouts still owed, in it, for the filled but unclaimed parts of orders of the other direction.
 So no sequence of placements, swaps, cancellations and claims (fewer than 10^18 fills per tick) can make it unable to pay.""",
 ["histories"], "all histories of operations by any users",
 "the central safety statement; depends on rounding of every fill and claim and on exact queue accounting across cancellations",
 ["order.rs", "tick.rs", "sumtree/node.rs", "sumtree/tree.rs", "tick_math.rs", "sudo.rs"], [("claim_order", "order.rs"), ("run_market_order_internal", "order.rs"), ("cancel_limit", "order.rs"), ("place_limit", "order.rs"), ("sync_tick", "tick.rs")])

prop("C23", "Denominations map to directions consistently",
 """Bids deposit and asks pay out the quote denomination, asks deposit and bids pay out the base denomination, everywhere.
 A pair of denominations is taken as an ask exactly for (base in, quote out), as a bid exactly for (quote in, base out), and every other pair is refused; the spot price of base in quote is the price at the best bid tick and that of quote in base the inverse of the price at the best ask tick.""",
 ["inputs"], "all strings as denominations, both directions, all best ticks",
 "a swapped branch for one pair order or one call site is only seen if a test uses it",
 ["types/orderbook.rs", "types/order.rs", "query.rs"], [("Orderbook::get_expected_denom", "types/orderbook.rs"), ("Orderbook::get_opposite_denom", "types/orderbook.rs"), ("Orderbook::direction_from_pair", "types/orderbook.rs"), ("spot_price", "query.rs")],
 observe=["query SpotPrice", "query Denoms"])

prop("C24", "Failed transfers undo the whole operation and instantiation is sound",
 """Every transfer the contract issues is reported back to it on failure, and a reported failure makes the whole operation fail, so no operation takes effect without its payments.
 Instantiation succeeds only for two different denominations that both have supply, and yields an empty book with the given denominations, best ticks at the two ends of the range, zero fee, the default fee recipient, the governance address as admin and the circuit-breaker address as moderator.""",
 ["inputs", "fault_sequences"], "all operations that issue transfers, all transfer outcomes; all instantiate messages",
 "tests do not run the failure replies for every transfer kind",
 ["contract.rs", "order.rs", "sudo.rs", "orderbook.rs"], [("reply", "contract.rs"), ("instantiate", "contract.rs"), ("create_orderbook", "orderbook.rs")], observe=["reply", "instantiate"])

prop("C25", "Order and tick queries return exactly the matching stored records",
 """The order and tick queries return only records that are stored at that moment, unchanged: orders by owner exactly that owner's orders, orders by tick exactly that tick's orders and ticks exactly the stored ticks, in ascending key order, restricted to the inclusive start and end keys given and cut after the given limit (100 by default for orders by owner).
 Ticks requested by identifier come back in the requested order, and asking for one that does not exist fails; no query changes any state.""",
 ["inputs", "histories"], "all stored states, bounds and limits",
 "pagination bounds and limits over arbitrary contents; tests sample",
 ["query.rs", "state.rs"], [("orders_by_owner", "query.rs"), ("orders_by_tick", "query.rs"), ("all_ticks", "query.rs"), ("ticks_by_id", "query.rs"), ("get_orders_by_owner", "state.rs")],
 observe=["query OrdersByOwner", "query OrdersByTick", "query AllTicks", "query TicksById"])

prop("C26", "The unrealised-cancellation query reports what synchronisation would fold in",
 """For every existing tick the unrealised-cancels query reports, for each direction under its own name, exactly the recorded and not yet folded-in cancelled quantity that the current fill progress reaches, by the same queue-order rule by which synchronisation folds it in.
 It is zero where there were no cancellations, a tick that does not exist is refused, and the ticks come back in the requested order.""",
 ["histories", "inputs"], "all tick states and cancellation sets, both directions",
 "relational between a query and an operation over all trees",
 ["query.rs", "tick.rs"], [("get_unrealized_cancels", "query.rs"), ("ticks_unrealized_cancels_by_id", "query.rs"), ("get_prefix_sum", "sumtree/tree.rs")],
 observe=["query GetUnrealizedCancels"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
