#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays easy to review)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
P = []
V1 = "contracts/marketplace/src/"
RA = "contracts/reserve-auction/src/"
V2 = "contracts/stargaze-marketplace-v2/src/"
CM = "packages/sg-marketplace-common/src/"
H = ["histories", "inputs", "schedules", "fault_sequences"]

def p(id, title, statement, over, qtext, why, files, mech, state=(), obs=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
        "mechanism": [dict(name=a, where=b) for a, b in mech],
        "observe_at": list(obs), "hook_needed": None}})

# ---------------------------------------------------------------- marketplace v1
p("M01", "v1: escrow equals open bids; coins are conserved",
  "At every block boundary the marketplace contract's coin balance equals exactly the sum of the amounts of all bids and collection bids it reports as open. Money a bidder put in leaves the contract exactly once, either as a complete refund to that bidder or as the payment of one sale, and no operation creates, destroys or strands coins.",
  H, "every history of messages by any set of users, in any order, with lost, duplicated, delayed and failing transactions, governance changes and block-time jumps",
  "Tests follow single hand-written flows with one or two bids and look at one account; none sums the escrow over interleaved bids, replacements, purchases, rejections and stale removals.",
  [V1+"execute.rs", V1+"state.rs"],
  [("bid set/remove/accept/reject handlers", V1+"execute.rs"), ("bids / collection_bids maps", V1+"state.rs")],
  [("bids", "open bids with escrowed price", V1+"state.rs"), ("collection_bids", "open collection bids with escrowed price", V1+"state.rs")],
  ["bank balance of the contract", "Bids/CollectionBids queries"])
p("M02", "v1: every sale splits the payment exactly",
  "For every completed sale the amount paid splits exactly, to the unit, into the network fee (trading fee rate), the finder's fee if a finder is named, the collection's royalty if one is set, and the remainder, which all goes to the seller or the recipient the seller named; together these equal the payment. The rates used are the ones in force at the sale: current trading fee, the collection's current royalty, and the finder rate offered by the ask for direct purchases or by the bid for accepted bids.",
  H, "every price, fee rate, royalty share, finder setting, sale path (fixed-price match, buy now, buy for, accept bid, accept collection bid) and history of parameter changes before it",
  "Tests use round prices and round rates at which no rounding happens and check only a few of the paths; rates never change between listing and sale.",
  [V1+"execute.rs"], [("finalize_sale / payout", V1+"execute.rs")], [], ["bank transfers of the sale", "burn and pool amounts"])
p("M03", "v1: refunds are exact, unconditional and paid once",
  "A bid or collection bid that is withdrawn, rejected, replaced, or removed as stale always gives its bidder back the complete escrowed amount, except that removal as stale may divert exactly the configured reward share to the operator who removed it. After that the bid no longer exists and can never be refunded, accepted or rejected again, and withdrawing an open bid is always possible for its bidder, whatever the state of the collection, the ask or the hooks.",
  H, "every order of bid, re-bid, withdraw, reject, accept and stale removal by every participant, with duplicated and reordered transactions and failing collections or hooks",
  "Tests exercise one withdrawal or one rejection each; no test replays, duplicates or races them, or uses rewards that round to zero.",
  [V1+"execute.rs"], [("execute_remove_bid, execute_reject_bid, execute_remove_stale_bid and the collection-bid variants", V1+"execute.rs")], [], ["bidder balance", "bid queries"])
p("M04", "v1: only the entitled party can act; NFTs move only by consent",
  "An NFT is moved by the marketplace only as a sale that its current owner agreed to (an active listing made by that owner, or that owner accepting a bid), and only to the buyer or the recipient the buyer named. Listings are created, repriced or cancelled only by the NFT's current owner, bids are withdrawn only by their bidder and accepted or rejected only by the NFT's current owner, and sync, stale removal and governance actions are limited to operators and governance.",
  H, "every sender for every message at every point of every history, including after NFTs were transferred, approvals revoked or tokens burned outside the marketplace",
  "Tests check a handful of wrong senders right after setup; ownership changes behind the marketplace's back are tested for one path only.",
  [V1+"execute.rs", V1+"helpers.rs"], [("only_owner, only_operator, only_seller checks", V1+"execute.rs"), ("sudo entry point", V1+"sudo.rs")], [], ["NFT owner", "success or failure of each message"])
p("M05", "v1: a trade happens exactly when ask and bid terms match",
  "A bid or purchase on a token with a live fixed-price ask completes at once exactly when its amount equals the ask's price, waits when it is lower and is refused when it is higher; an auction ask accepts only offers at or above its price and sells only when the owner accepts. A reserved ask sells only to the account it is reserved for, an inactive ask does not sell, a sale removes the ask and the winning bid, and a token never has more than one ask nor a bidder more than one open bid on it.",
  H, "every interleaving of ask creation, repricing, removal, activation changes, bids, purchases and acceptances from several users",
  "Tests walk through single matches with fixed prices; interleavings of repricing, deactivation and competing bids are not explored.",
  [V1+"execute.rs", V1+"state.rs"], [("execute_set_bid / buy-now matching, execute_accept_bid", V1+"execute.rs")], [], ["NFT owner", "Ask and Bid queries"])
p("M06", "v1: expiry and staleness are honoured to the second",
  "An ask or bid that has reached its expiry time can no longer trade, one that has not can, and no order is accepted whose lifetime lies outside the configured range. A bid or collection bid becomes removable by operators only once its expiry plus the configured stale period has passed, and an ask only when its NFT is no longer the seller's or is expired or no longer approved as the rules allow.",
  ["histories", "inputs", "schedules", "configurations"], "every block time relative to every expiry and stale boundary, with clock jumps, changed parameters and delayed transactions",
  "Tests jump to one time far past a boundary; the exact boundary instants and orders created under other parameters are never tried.",
  [V1+"execute.rs", V1+"state.rs", V1+"helpers.rs"], [("ExpiryRange::is_valid, Order::is_expired, stale removal handlers", V1+"execute.rs")], [], ["success or failure at boundary times"])
p("M07", "v1: operations are all-or-nothing; hooks can never interfere",
  "If any transfer or payment that an operation needs fails, the complete operation fails and orders, balances and NFT ownership stay as they were. Subscriber hooks are told of every ask, bid and sale event with its true terms, but a hook that fails never changes the outcome of the operation or another hook's delivery, and a hook or collection that calls back into the marketplace gains nothing.",
  ["histories", "crash_points", "fault_sequences", "inputs"], "every operation with a failure injected at every sub-message, every abort point and every set of failing or re-entering hooks and collections",
  "One test shows a failing hook is tolerated for one operation; no test fails a transfer or payment in the middle of a sale or aborts an operation part-way.",
  [V1+"execute.rs", V1+"helpers.rs"], [("reply handler and prepare_*_hook sub-messages", V1+"execute.rs")], [], ["full contract storage and bank state after failed operations", "messages received by hook contracts"])
p("M08", "v1: queries report exactly the open orders, in order, page by page",
  "At any time the queries return exactly the asks, bids and collection bids that exist, with their true terms. Every sorted or filtered listing is correctly ordered and filtered and, followed page by page in either direction with any page size, yields each matching entry exactly once, and a collection is listed exactly when it has asks.",
  ["histories", "inputs"], "every reachable order book and every page size, start key, direction and filter",
  "Tests query books of two or three orders with default limits and mostly no start key.",
  [V1+"query.rs", V1+"state.rs"], [("paginated range queries over indexed maps", V1+"query.rs")], [], ["all query messages"])
p("M09", "v1: parameters change only by governance and stay within bounds",
  "The contract starts exactly as instantiated, and instantiation refuses fees above 100%, empty expiry ranges, a stale duration in blocks and invalid addresses. Contract parameters and hook lists change only through governance messages, and the operator list only through the messages that add or remove one operator; each update changes exactly the named fields, takes effect for later operations only, and out-of-range values are refused, as are prices outside the configured minimum and the hard maximum. Migration never alters orders, parameters or balances, and refuses to go to an older version or another contract.",
  ["histories", "inputs", "configurations", "schedules"], "every instantiation, and every sequence of parameter updates, operator and hook changes and migrations, interleaved with trading",
  "Tests set one or two parameters once and read them back; no test interleaves updates with open orders or tries each field's bound.",
  [V1+"sudo.rs", V1+"execute.rs"], [("sudo handlers, instantiate validation, migrate", V1+"sudo.rs")], [], ["Params and hook queries", "success or failure of sudo messages"])

p("M10", "v1: events announce every change, and only what happened",
  "Someone who only follows the events of successful transactions always knows which asks, bids and collection bids are open and their announced terms (seller, bidder, price, expiry, sale type, reservation, active or not), who the operators are and which hooks are registered. Every announced sale, royalty payment and stale-bid reward took place with the announced parties, price, amount and token recipient, and every hook call that failed is reported as failed.",
  H, "every history of trading, governance and migration, on every sale and removal path, with failing or re-entrant hooks and collections and aborted transactions in between",
  "Tests look at a few attributes of single transactions; none rebuilds the order book from the event stream and compares it with the contract's answers over a history.",
  [V1+"execute.rs", V1+"sudo.rs"], [("Event::new and add_attribute in every handler", V1+"execute.rs"), ("reply", V1+"execute.rs"), ("sudo attributes", V1+"sudo.rs")], [],
  ["events of successful transactions", "ask, bid, collection bid, params and hook queries", "bank transfers", "NFT owner"])

# ---------------------------------------------------------------- reserve auction
p("R01", "auction: the NFT and the winning bid are held exactly while it is live",
  "While an auction exists its NFT is owned by the auction contract and the contract's balance in each denomination is exactly the sum of the current high bids; when it ends the NFT and the money leave exactly once, and otherwise never. No operation creates, destroys or strands coins or NFTs.",
  H, "every history of creations, bids, updates, cancellations, settlements and end-of-block processing over several auctions and denominations",
  "Tests follow one auction at a time; no test sums escrow over several auctions in several denominations.",
  [RA+"execute.rs", RA+"sudo.rs", RA+"helpers.rs", RA+"state.rs"], [("create/bid/settle handlers", RA+"execute.rs"), ("end-block processing", RA+"sudo.rs")],
  [("auctions", "live auctions with high bid", RA+"state.rs")], ["bank balance of the contract", "NFT owner", "auction queries"])
p("R02", "auction: bids only go up and outbid money returns at once",
  "A first bid must be at least the reserve price and every later bid at least the previous high bid raised by the minimum increment (rounded up), in the auction's denomination, and never from the seller or after the end; any bid that meets this is accepted. When a bid is accepted the previous high bidder gets exactly their bid back in the same transaction.",
  H, "every sequence of bids, amounts around each threshold, denominations, bidders and times, with races, duplicates and changed parameters",
  "Tests place two or three bids with round amounts; the exact thresholds under odd increments and racing bids are not explored.",
  [RA+"execute.rs", RA+"helpers.rs"], [("execute_place_bid", RA+"execute.rs")], [], ["bidder balances", "Auction query", "success or failure of bids"])
p("R03", "auction: end time starts at the first bid and extends only near the end",
  "An auction without bids never ends; its first bid fixes the end at that block's time plus the auction's duration. A later bid moves the end only when less than the extension period remains, and then to exactly that period after the bid; the end never moves earlier and nothing but bids and halt postponement moves it.",
  ["histories", "schedules", "inputs", "fault_sequences"], "every timing of bids relative to start, end and extension window, with sub-second times, clock jumps and parameter changes",
  "Tests make one late bid at one time; boundaries of the extension window and parameter changes during an auction are not tried.",
  [RA+"execute.rs", RA+"state.rs"], [("end_time handling in execute_place_bid", RA+"execute.rs")], [], ["Auction query end_time"])
p("R04", "auction: settlement pays exactly once and splits the bid exactly",
  "An auction settles only at or after its end and at most once; then the NFT goes to the high bidder and the high bid splits exactly into the network fee, the collection's current royalty (each rounded up) and the remainder for the seller or their chosen recipient, with nothing left over. The auction is removed and can be neither bid on, cancelled nor settled again.",
  H, "every price, rate, royalty, recipient, denomination and settlement path (message or end of block), with duplicated settlement requests and halts",
  "Tests settle with round prices; duplicates, odd amounts and settlement racing with end-of-block are not covered.",
  [RA+"helpers.rs", RA+"execute.rs", RA+"sudo.rs"], [("settle_auction", RA+"helpers.rs"), ("payout_nft_sale_fees of the sg-marketplace-common dependency", RA+"helpers.rs")], [], ["bank transfers", "NFT owner", "auction queries"])
p("R05", "auction: only the owner creates, only the seller alters, never after a bid",
  "Only an NFT's owner can put it up for auction, with valid terms (reserve price at or above the minimum for an allowed denomination, duration within bounds, tradable collection, exact creation fee), and a token has at most one auction. Only the seller can change the reserve price or cancel, and only before the first bid; after the first bid nobody can withdraw the NFT or change the terms.",
  H, "every sender, amount and time for every message at every point of the history",
  "Tests check one wrong sender and one too-late cancel.",
  [RA+"execute.rs", RA+"helpers.rs"], [("execute_create_auction, execute_update_reserve_price, execute_cancel_auction", RA+"execute.rs")], [], ["success or failure of messages", "NFT owner"])
p("R06", "auction: chain halts postpone the affected auctions and only those",
  "When two consecutive blocks are at least the halt threshold apart, every auction that would have ended during the halt or the buffer after it is postponed instead of settled when it comes due, and settles after the postponement under the usual rules. Auctions ending outside every halt window are never postponed, and a recorded halt stays in force until no auction can still fall inside it and is forgotten soon after.",
  ["schedules", "histories", "fault_sequences", "configurations"], "every pattern of chain halts, block spacing, auctions ending before, in and after the window, and interleaved bids and settlements",
  "One test makes one halt with auctions at three fixed times; end-of-block runs in between, repeated halts and settlement by message are not combined.",
  [RA+"sudo.rs", RA+"state.rs", RA+"helpers.rs"], [("sudo_begin_block, halt windows", RA+"sudo.rs"), ("HaltManager", RA+"state.rs")], [], ["HaltManager query", "Auction query end_time"])
p("R07", "auction: every ended auction is settled in order within bounded blocks",
  "End-of-block processing handles the auctions that are due, earliest end first, up to the configured number per block, so that with n auctions due all are settled or postponed within n divided by that number blocks. It never fails, and neither auctions that are not yet due nor one auction that cannot be settled stop the due ones from being processed.",
  ["histories", "schedules", "fault_sequences"], "every set of auctions with equal, nearly equal and different ends, sub-second block times, failing collections and every limit",
  "Tests end all auctions at once with a generous limit and whole-second times.",
  [RA+"sudo.rs", RA+"state.rs"], [("sudo_end_block", RA+"sudo.rs")], [], ["result of end-block", "auction queries"])
p("R08", "auction: parameters, minimum prices and queries are faithful",
  "The contract starts exactly as instantiated, or refuses to. Parameters and minimum reserve prices change only through governance, each update changes exactly what it names, refuses invalid values and leaves existing auctions untouched. Queries return exactly the live auctions with their true terms, and listings by seller and by end time, followed page by page in either direction, yield each auction exactly once in order.",
  ["histories", "inputs", "configurations"], "every sequence of updates and every reachable set of auctions, page size, start key and direction",
  "Tests update parameters once and page over small fixed sets.",
  [RA+"sudo.rs", RA+"query.rs", RA+"state.rs"], [("sudo handlers", RA+"sudo.rs"), ("queries", RA+"query.rs")], [], ["all queries", "success or failure of sudo messages"])

p("R09", "auction: events announce every change, and only what happened",
  "Someone who only follows the events of successful transactions and blocks always knows the live auctions with seller, reserve price, end time, funds recipient and high bid, the minimum reserve prices and the parameters. Every announced bid names the true previous bidder and amount, and every announced settlement the true seller, winner and amount; an auction settled or postponed at the end of a block is announced as such.",
  H, "every history of creations, bids, updates, cancellations, settlements, end-of-block processing and governance, with failing collections and aborted transactions in between",
  "Tests look at a few attributes of single transactions; none rebuilds the auctions from the event stream and compares.",
  [RA+"execute.rs", RA+"sudo.rs", RA+"helpers.rs"], [("Event::new and add_attribute in every handler", RA+"execute.rs")], [],
  ["events of successful transactions and of end-of-block processing", "auction, config and minimum price queries"])

# ---------------------------------------------------------------- marketplace v2
p("V01", "v2: escrowed funds equal open bids and return in full",
  "At every block boundary the contract's balance in each denomination equals exactly the sum of all open bids and collection bids. Raising, lowering, matching, accepting, rejecting and removing an order each moves exactly the difference: funds beyond what a trade costs come back to the payer in the same transaction, a removed order returns its whole escrow to its creator, and no coins are created, destroyed or stranded.",
  H, "every history of orders, updates, matches, acceptances and removals by several users in several denominations, with lost, duplicated, reordered and failing transactions",
  "The v2 contract has no test of any of its messages, only one of a fee helper.",
  [V2+"execute.rs", V2+"orders.rs", V2+"helpers.rs"], [("bid set/update/remove/accept handlers", V2+"execute.rs")],
  [("bids, collection_bids", "open bids with escrowed price", V2+"state.rs")], ["bank balance", "bid queries"])
p("V02", "v2: an NFT is in custody exactly while listed and leaves once",
  "The contract owns an NFT exactly while it has an ask for it; the NFT then leaves exactly once, either to the buyer (or the recipient the buyer named) when sold or back to the lister (or the recipient they named) when the ask is removed. A token never has two asks and no NFT is ever stuck in or taken from the contract otherwise.",
  H, "every interleaving of listing, updating, selling and removing over several tokens and users, with failing transfers and duplicated messages",
  "No v2 test lists or sells an NFT.",
  [V2+"execute.rs", V2+"orders.rs", CM+"nft.rs"], [("ask set/remove/accept handlers", V2+"execute.rs")], [("asks", "listed tokens", V2+"state.rs")], ["NFT owner", "Asks queries"])
p("V03", "v2: orders that can trade do, at best price; the book is never crossed",
  "After every transaction no open bid or collection bid is priced at or above an open ask it could trade with in the same denomination. A new or repriced ask sells to the highest eligible bid (preferring a bid on the token over an equal collection bid), a new or repriced bid that reaches the ask buys it, a collection bid takes the cheapest ask, and when an order matches at once the trade is at the price of the order that was there first.",
  H, "every interleaving of orders and repricing over several tokens, prices and denominations",
  "No v2 test creates two orders.",
  [V2+"orders.rs", V2+"execute.rs"], [("MatchingBid / match_with_ask logic", V2+"orders.rs")], [], ["order queries after every transaction", "sale price and parties"])
p("V04", "v2: every sale pays each party exactly its share",
  "In every sale the price paid by the buyer splits exactly into the protocol fee (less maker and taker rewards where finders are named), those rewards, the royalty and the remainder, which goes to the seller or the recipient the seller named. Each share is computed at the current configuration, the royalty is taken from the collection's registered entry (protocol-specific, then default, then the collection's own information), never exceeds the configured maximum, and everything sums to the price.",
  H, "every price, rate, finder combination, royalty entry and order of orders, for every sale path",
  "The only v2 test checks one helper on fixed numbers; no sale is executed.",
  [V2+"helpers.rs", V2+"orders.rs", V2+"execute.rs"], [("finalize_sale, divide_protocol_fees", V2+"helpers.rs")], [], ["bank transfers of each sale"])
p("V05", "v2: only an order's creator, the NFT's owner or the admin can act",
  "An order is changed or removed only by its creator, a token is listed or sold only by its current owner, a listed token's bids are accepted only by the lister, and configuration, listing fees and denominations are changed only by the contract's administrator. Every other sender is refused, at every point of every history.",
  H, "every sender for every message at every point of the history, including after NFTs changed hands outside the contract and while collections fail to answer",
  "No v2 test sends a message from a wrong sender.",
  [V2+"execute.rs", CM+"nft.rs"], [("only_owner, creator and admin checks", V2+"execute.rs")], [], ["success or failure of each message"])
p("V06", "v2: nobody pays more or receives less than they agreed to",
  "A buyer never pays more than the price they put on their bid or purchase and a seller's token never sells below the price they set or named, and always in the agreed denomination. The proceeds, NFT and finder reward always go to the recipients and finders named in the parties' own current orders, even when orders are repriced or replaced between signing and execution.",
  H, "every race between repricing, removal, re-listing and acceptance, with delayed and reordered transactions",
  "No v2 test contains two parties.",
  [V2+"execute.rs", V2+"orders.rs"], [("price guards in accept/buy/sell handlers", V2+"execute.rs")], [], ["sale price", "recipients of NFT and funds"])
p("V07", "v2: every operation is all-or-nothing",
  "If any transfer, payment, refund or royalty lookup that an operation needs fails or the operation is aborted part-way, the complete operation fails and orders, balances and NFT ownership stay exactly as before. A collection that calls back into the marketplace during a transfer gains nothing and breaks no other guarantee.",
  ["histories", "crash_points", "fault_sequences"], "every operation with a failure or abort injected at every sub-message and storage access, and re-entering collections",
  "No v2 test injects a failure.",
  [V2+"execute.rs", V2+"helpers.rs"], [("plain sub-messages without error replies", V2+"helpers.rs")], [], ["storage, bank and NFT state after failed operations"])
p("V08", "v2: order identities are unique and queries report the exact book",
  "Every order keeps one identity for its life, different orders open at the same time never share one, the identity of a bid is never used again, and the queries return exactly the open orders with their true terms. Listings by creator, by collection and sorted by price, followed page by page in either direction with any bound and page size, yield each matching order exactly once in order.",
  ["histories", "inputs"], "every reachable book, several orders of one user in one block, every page size, bound and direction",
  "No v2 test runs a query.",
  [V2+"query.rs", V2+"state.rs", V2+"helpers.rs"], [("id generation", V2+"helpers.rs"), ("index queries", V2+"query.rs")], [], ["all query messages"])
p("V09", "v2: listings and bids obey denomination, fee and trading-start rules",
  "Orders are accepted only at a non-zero price in the collection's denomination (or the default one when none is set), and a listing only with exactly the fee set for the denomination it is paid in, which reaches the fee manager in full, and only once the collection's trading has started. Bids must carry at least their price.",
  H, "every price, denomination, attached funds and time, before and after configuration changes",
  "No v2 test lists a token.",
  [V2+"execute.rs", V2+"helpers.rs", CM+"nft.rs"], [("only_valid_price, listing fee check, only_tradable", V2+"helpers.rs")], [], ["success or failure of orders", "fee manager balance"])
p("V10", "v2: configuration stays valid, takes effect later, survives migration",
  "The contract starts exactly as instantiated, or refuses to. Each configuration change by the administrator changes exactly what it names, invalid fee settings are refused, and open orders and escrow are left untouched. Migration changes neither orders, configuration nor balances.",
  ["histories", "inputs", "configurations"], "every sequence of configuration changes and migrations interleaved with trading",
  "No v2 test changes the configuration or migrates.",
  [V2+"execute.rs", V2+"state.rs", V2+"migrate.rs"], [("Config::save validation", V2+"state.rs")], [], ["Config query", "success or failure of admin messages"])

p("V11", "v2: events announce every change, and only what happened",
  "Someone who only follows the events of successful transactions always knows every open ask, bid and collection bid with its identity, creator, token, price, recipient and finder, and the configuration, collection denominations and listing fees. Every announced sale names the order or orders it consumed, the true recipient of the token, and each share (protocol, maker, taker, royalty, seller) as it was paid, adding up to the price.",
  H, "every history of orders, updates, matches, acceptances, removals and configuration changes, with failing or re-entrant collections and aborted transactions in between",
  "No v2 test looks at an event.",
  [V2+"events.rs", V2+"execute.rs", V2+"orders.rs"], [("event types", V2+"events.rs"), ("finalize_sale", V2+"helpers.rs")], [],
  ["events of successful transactions", "order and config queries", "bank transfers", "NFT owner"])

# ---------------------------------------------------------------- all
p("D01", "all contracts: every replica computes the same result",
  "Executing the same blocks from the same state always gives the same results, events, messages and storage on every node, whether it runs straight through, crashes and re-executes a block, restarts from its stored state, or has simulated or aborted transactions in between.",
  ["schedules", "crash_points", "histories"], "every history of all three contracts replayed on several simulated nodes with crashes, restarts and simulations at arbitrary points",
  "Tests run each contract once in one process and compare nothing between executions.",
  ["contracts/marketplace/src/execute.rs", "contracts/reserve-auction/src/sudo.rs", "contracts/stargaze-marketplace-v2/src/execute.rs"],
  [("contract entry points keep all state in storage", "contracts/*/src/*.rs")], [], ["state hash, results and events per block"])
p("T01", "typescript: generated bindings accept exactly the contracts' messages",
  "The TypeScript types and schema files published with the repository describe exactly the messages and responses that the contracts accept and return.",
  ["inputs"], "every message and response",
  "There is no test that compares the generated files with the contracts.",
  ["typescript", "contracts/marketplace/src/msg.rs"], [("code generation", "typescript")], [], ["schema files"])
with open(OUT, "w") as f:
    for r in P: f.write(json.dumps(r) + "\n")
print(len(P))
