#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long statements stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [], "mechanism": mech,
                          "observe_at": observe or [], "hook_needed": None}})
PAIR="contracts/halo-pair/src/contract.rs"; FAC="contracts/halo-factory/src/contract.rs"; FST="contracts/halo-factory/src/state.rs"
ROU="contracts/halo-router/src/contract.rs"; ROP="contracts/halo-router/src/operations.rs"; TOK="contracts/halo-token/src/contract.rs"
AST="packages/haloswap/src/asset.rs"; QRY="packages/haloswap/src/querier.rs"; BIG="packages/bignumber/src/math.rs"
def m(n,w): return {"name":n,"where":w}
def s(n,me,w): return {"name":n,"meaning":me,"where":w}

prop("C01","Trading never shrinks a pool's reserve product",
 "In every history, a transaction that neither deposits into nor withdraws from a pair (any mix of direct swaps, routed swaps, transfers and donations, in any order) leaves the product of that pair's two reserves at least as large as before, exactly and without rounding slack. No swap ever empties a reserve that was not empty.",
 ["histories","schedules","inputs"],"every interleaving of traders, every reserve size up to 128 bits and decimals combination, every offer amount",
 "Unit tests check two or three hand-picked swaps against the same formula the code uses; rounding at extreme reserve ratios and sequences of swaps are never exercised.",
 [PAIR,BIG],[m("compute_swap",PAIR),m("offer already credited is subtracted from the offer reserve",PAIR+" swap")],
 [s("reserves","balances the pair account holds of its two assets","bank / cw20 ledgers")],["pair Pool query","asset balances of the pair"])
prop("C02","The backing of a liquidity share never falls",
 "While a pair has liquidity tokens outstanding, no transaction by anyone (swap, deposit, withdrawal, donation, burn of liquidity tokens, retried or failing call) lowers the value behind one liquidity token, measured exactly as the square root of the reserve product divided by the liquidity supply. Deposits and withdrawals also never lower either single reserve per liquidity token for the holders who stay.",
 ["histories","schedules","inputs"],"all interleavings of depositors, withdrawers and traders over all magnitudes",
 "Tests do one deposit or one withdrawal on a fresh pool with round numbers; rounding leaks only show over histories and odd ratios.",
 [PAIR],[m("share is the minimum of both proportional shares, rounded down",PAIR+" provide_liquidity"),m("refund rounded down",PAIR+" withdraw_liquidity")],
 [s("total_share","liquidity token total supply","halo-token TOKEN_INFO")],["pair Pool query"])
prop("C03","A swap pays exactly the constant-product price to the right account",
 "A successful swap of amount a against reserves x (offered) and y (asked) takes exactly a from the trader and pays the designated receiver, or the trader when none is named, exactly g - floor(0.003*g), where g = y - ceil(x*y/(x+a)). This equals the return amount of the pair's Simulation query in the state the swap executes in, for either direction and whether the asked asset is native or a token.",
 ["histories","schedules","inputs"],"every state reached by a history, both directions, every amount, receiver and asset kind",
 "Existing tests check single swaps from a fixed state; swap from the second asset, large values, custom receivers after other users' trades and quote/execution agreement are not sampled.",
 [PAIR,AST],[m("compute_swap",PAIR),m("swap / query_simulation share compute_swap",PAIR),m("Asset::into_msg",AST)],
 [],["pair execute swap","pair Simulation query"])
prop("C04","A swap never executes outside the trader's price guard",
 "A swap with a maximum spread s executes only if, in the state where it executes, its relative shortfall is at most s (with a belief price: how far the amount paid out stays below the offer divided by that price; without: the spread divided by spread plus amount paid out, the spread being how far the output before the fee stays below the offer at the reserve ratio before the swap; decimals normalised, up to 18-digit rounding), however stale the quote the trader acted on; otherwise it fails and moves nothing. A swap that returns something and whose shortfall is below s is not refused because of the guard.",
 ["histories","schedules","inputs"],"every reordering/front-running of the guarded swap, every decimals combination up to 18, every guard value",
 "Tests call the assertion on four hand-written cases; the guard under stale quotes, both decimals directions, and non-trivial spreads is untested.",
 [PAIR],[m("assert_max_spread",PAIR)],[s("asset_decimals","decimals of both assets recorded at pair creation","PAIR_INFO")],["pair execute swap"])
prop("C05","A deposit mints exactly the fair amount of liquidity tokens",
 "A successful deposit moves exactly the two stated amounts from the depositor into the pair and mints to the named receiver (the depositor by default) exactly the smaller of the two proportional shares floor(d_i*supply/reserve_i), or floor(sqrt(d_0*d_1)) when no liquidity is outstanding, whatever order the two assets are listed in. A deposit that would mint nothing, names a wrong asset, or attaches native coins that differ from the stated amount is refused.",
 ["histories","inputs","schedules"],"every state reached by a history and every pair of amounts, listing order and receiver",
 "Tests cover an initial deposit and one balanced second deposit; unbalanced, reordered, huge and post-trade deposits are not covered.",
 [PAIR,AST],[m("provide_liquidity",PAIR),m("assert_sent_native_token_balance",AST)],[s("total_share","liquidity token supply","halo-token")],["pair execute provide_liquidity","liquidity token balances"])
prop("C06","A deposit never executes outside its slippage tolerance",
 "A deposit with slippage tolerance t executes only if, against the reserves at execution, d0/d1*(1-t) <= r0/r1 and d1/d0*(1-t) <= r1/r0 (up to the contract's 18-digit fixed-point rounding), whatever trades were ordered before it; otherwise it fails and moves nothing. A tolerance above 100% is refused, and a deposit strictly inside the tolerance is not refused because of it.",
 ["histories","schedules","inputs"],"every ordering of the deposit relative to trades, both directions of deviation, every tolerance",
 "The only test checks two hand-written deposits around one fixed pool state.",
 [PAIR],[m("assert_slippage_tolerance",PAIR)],[],["pair execute provide_liquidity"])
prop("C07","An empty pool is seeded only by whitelisted accounts with the minimums",
 "Whenever a pair has no liquidity tokens outstanding (newly created, or after every holder withdrew or burned, or with stray donations in it), a deposit succeeds only if its sender is on the whitelist fixed at creation and both amounts reach the minimums fixed at creation for the respective assets; a funded deposit that meets both is not turned away. While liquidity is outstanding the whitelist and minimums restrict nobody.",
 ["histories","inputs","configurations"],"every history including complete withdrawal and re-seeding, donations to the empty pool, every whitelist and asset order",
 "Tests cover only the very first deposit with one whitelisted account and equal minimums.",
 [PAIR,FAC],[m("requirements check when total_share is zero",PAIR+" provide_liquidity")],[s("requirements","whitelist and per-asset minimums","PAIR_INFO")],["pair execute provide_liquidity"])
prop("C08","Withdrawing pays each holder the exact pro-rata share",
 "A successful withdrawal of l liquidity tokens burns exactly l from the account that sent them and pays that same account, of each reserve r, floor(r*floor(l/supply)) with the ratio taken to 18 digits: never more than the exact pro-rata amount and at most 1 + r/10^18 units less. Withdrawing the whole supply pays out both whole reserves, and no withdrawal order lets a holder take another holder's part.",
 ["histories","schedules","inputs"],"every order in which holders exit, every amount, direct or delegated send, after any trading history",
 "Tests withdraw once from a fixed pool and only look at the messages produced.",
 [PAIR],[m("withdraw_liquidity",PAIR),m("burn of the received liquidity tokens",PAIR)],[],["liquidity token send","asset balances"])
prop("C09","Liquidity tokens exist only against deposits",
 "The supply of a pair's liquidity token grows only by a deposit into that pair, by exactly the minted amount, and shrinks only by a withdrawal or a holder burning its own tokens; no account, contract or forged message can mint, seize or move another holder's liquidity tokens without allowance. The pair stays the only minter for ever, and the balances of all holders always add up to the supply the pair uses.",
 ["histories","schedules","inputs"],"all histories with arbitrary callers and messages, including migrations",
 "No test looks at the liquidity token ledger over a sequence of operations.",
 [PAIR,TOK],[m("minter set to the pair at instantiation",PAIR+" instantiate"),m("liquidity token address taken from the instantiate reply",PAIR+" reply")],[s("liquidity_token","address recorded by the reply","PAIR_INFO")],["liquidity token TokenInfo/Minter/Balance queries"])
prop("C10","Every operation is all-or-nothing under faults",
 "If any step inside an operation (a token transfer, a mint, a burn, a nested swap, a query, an instantiation) fails, or execution stops at an arbitrary point such as out-of-gas, the whole operation has no effect on any balance, supply, allowance, registry or configuration. If the operation reports success, every one of its effects took place.",
 ["fault_sequences","crash_points","histories"],"a failure injected at every kind of host call, at any position of swap, deposit, withdrawal, multi-hop route and pair creation",
 "No test injects a failure in a nested message or stops execution midway.",
 [PAIR,FAC,ROU,ROP],[m("plain messages and reply-on-success submessages so that failures propagate","add_message / ReplyOn::Success in pair, factory, router")],[],["all ledgers before/after a faulted transaction"])
prop("C11","A routed swap honours its minimum or changes nothing",
 "When a routed swap with a minimum-receive m succeeds, the receiver's balance of the last asset has grown by at least m during the route, whatever other transactions were ordered before it; otherwise the whole route fails and sender, receiver, router and every pair keep what they had. A route whose output reaches m is not refused on account of the minimum.",
 ["schedules","histories","inputs"],"every interleaving of trades before the route, 1 to 5 hops, custom receivers, receivers that already hold the asset",
 "Tests only inspect the messages the router emits and call the assertion in isolation with mocked balances.",
 [ROU],[m("AssertMinimumReceive appended after the hops",ROU),m("previous balance captured at entry",ROU+" execute_swap_operations")],[],["router execute/receive","receiver balance"])
prop("C12","A routed swap delivers the composed output and leaves nothing behind",
 "A successful routed swap that starts from a router without leftovers delivers to the designated receiver (the sender by default) exactly what its hops give when executed one after another on the registered pairs, equal to the router's simulation when no pair repeats, and leaves the router without any balance of the assets on the route. Routes that are empty or end in more than one output asset are refused.",
 ["histories","schedules","inputs"],"all routes of 1 to 5 hops over any pair graph including repeated pairs, mixed native/token targets and malformed routes",
 "No test executes a multi-hop route end to end; messages are only compared on a mock.",
 [ROU,ROP],[m("each hop swaps the router's whole balance",ROP),m("only the last hop names the receiver",ROU),m("assert_operations",ROU)],[],["router execute/receive","SimulateSwapOperations query"])
prop("C13","Only the balances an operation names move; nothing is created or lost",
 "In every history the total of each native coin stays constant and each token's balances always add up to its supply, which only mint and burn calls change. A call on one pair changes no reserve or supply of any other pair and no balance or allowance of any account that is neither caller, named owner, receiver nor that pair, even when another listed token is hostile (fails, lies about balances or re-enters).",
 ["histories","schedules","fault_sequences"],"all histories, with arbitrary bystanders and a hostile token contract re-entering at its transfer hooks",
 "Tests never compare complete ledgers and never use a misbehaving token.",
 [PAIR,ROP,AST],[m("pairs operate on their own balances only",PAIR),m("messages carry explicit recipient and owner",AST+" into_msg")],[],["complete ledgers"])
prop("C14","The registry holds one faithful entry per asset set",
 "The factory never holds two pairs for the same two assets, whichever order or letter case they are named in, never a pair of an asset with itself, and creating an existing pair is refused while a not yet listed pair of known assets can be created. Looking a pair up in either order returns the entry whose contract, liquidity token, assets, decimals and seeding requirements are those the pair itself reports, and an entry never changes or disappears afterwards.",
 ["histories","schedules","inputs"],"all interleavings of creations, failures, retries and other operations by many users",
 "Tests create a handful of pairs in one order on a fresh factory.",
 [FAC,FST],[m("pair_key",FST),m("existence check before, registration in the instantiate reply",FAC)],[s("PAIRS","pair_key -> pair info",FST),s("TMP_PAIR_INFO","pair being created",FST)],["factory Pair/Pairs queries","pair Pair query"])
prop("C15","Paging through the registry is complete",
 "A client that pages through the pair list with any sequence of page sizes, passing the last pair it saw (in either asset order), sees every pair that existed when it started exactly once and never sees a pair twice, even if pairs are created between two pages. A page holds min(limit or 10, 30) entries unless the list is exhausted.",
 ["histories","schedules","inputs"],"all page-size sequences interleaved with creations, up to several dozens of pairs of mixed native and token assets",
 "Tests page over at most a few pairs with nothing happening in between.",
 [FST,FAC],[m("calc_range_start / read_pairs",FST)],[],["factory Pairs query"])
prop("C16","Only the current owner controls factory settings",
 "Factory settings, native-coin decimals and pair code change only through a call by the account that is owner at that moment; every other caller is refused and changes nothing. Ownership moves to a valid new address at once and completely, each setting changes only when the call names it, and pairs created later use exactly the code ids in force at creation.",
 ["histories","schedules","inputs"],"all histories of ownership transfers raced by old and new owners and strangers, all combinations of optional fields",
 "Tests change the owner once and try one stranger.",
 [FAC],[m("owner comparison in update_config, add_native_token_decimals, migrate_pair",FAC),m("factory is the admin of created pairs",FAC)],[s("CONFIG","owner and code ids",FST)],["factory Config query","contract code ids"])
prop("C17","Only verified assets are listed, with the decimals in force at creation",
 "A native coin's decimals are set only while the factory itself holds some of that coin, and a pair is created only if the decimals of both assets are known at that moment (registered coin or answering token). The pair and its registry entry keep, for each asset in the listed order, exactly the decimals known at creation, whatever is re-registered later.",
 ["histories","schedules","inputs","fault_sequences"],"all interleavings of registration, re-registration and creation, and failing token queries",
 "Tests register a coin once; re-registration between creations and asset order are not covered.",
 [FAC,FST,AST],[m("balance check in add_native_token_decimals",FAC),m("query_decimals per asset",AST)],[s("ALLOW_NATIVE_TOKENS","denom -> decimals",FST)],["factory NativeTokenDecimals/Pair queries","pair Pair query"])
prop("C18","Forged notifications and internal calls are refused",
 "A pair performs a swap only when the notifying contract is one of its own two assets and a withdrawal only when it is its own liquidity token; the router's internal single-hop step runs only when the router calls itself. Any other account or contract sending these messages, with any claimed sender and amount, is refused and changes nothing, also when it names another pair's liquidity token or a look-alike token.",
 ["inputs","histories"],"all callers (users, tokens, other pairs' liquidity tokens, attacker contracts) and claimed contents in all states",
 "Tests try one wrong caller per entry point.",
 [PAIR,ROP],[m("info.sender comparison with the pool assets / liquidity token",PAIR+" receive_cw20"),m("env.contract.address check",ROP)],[],["pair/router execute"])
prop("C19","Re-execution after a crash or on another node gives the identical result",
 "Executing the same block history on another node, or again after a node crashed at any point inside a block and restarted from its last committed state in a fresh process, yields bit-identical contract state, success or failure, response data, events and host-call sequence for every transaction. No outcome depends on anything but the committed state, the block data and the message.",
 ["crash_points","histories","schedules"],"all histories with crashes at arbitrary host calls inside arbitrary blocks",
 "Tests run every call once in one process.",
 [PAIR,FAC,ROU,TOK],[m("contracts keep no state outside storage and use no iteration over randomised maps","all contracts (HashMap in "+ROU+" assert_operations)")],[],["state hash, responses"])
prop("C20","Reported amounts are what actually moved",
 "The amounts and accounts a pair reports for a swap (offered, returned, spread, commission, sender, receiver, assets), a deposit (assets, minted share, receiver) and a withdrawal (burned share, refunded assets), and the addresses reported when a pair is created, equal the balance movements and contracts that the same transaction really produced. For a swap, returned plus commission is the output before the fee, the commission is floor(0.3%) of it, and the spread is how far that output stays below the offer valued at the reserve ratio before the swap (up to the 18-digit rounding of that ratio), never below zero.",
 ["histories","inputs"],"every successful operation of every history, direct or nested in a route",
 "Tests compare attributes of a few single calls on mocks where no balance moves.",
 [PAIR,FAC],[m("attributes built from the computed amounts",PAIR)],[],["transaction events"])
prop("C21","Once faults stop, valid operations succeed and everyone can exit",
 "In any state a history can reach, as long as every amount involved, also after bringing both assets to the same number of decimals, fits 128 bits, a swap within balance, a deposit in proportion by a funded account, an eligible first deposit, a withdrawal worth at least one unit of each asset, a routed token swap along registered funded pairs and the creation of an unlisted pair all succeed at the first fault-free attempt. When all holders then withdraw one after another, every one of them is paid and the pair ends with no liquidity tokens outstanding.",
 ["histories","fault_sequences","schedules"],"all states reached under faults, then a fault-free suffix of bounded length",
 "Tests never continue after failures and never use 18-decimals sized or lopsided pools.",
 [PAIR,ROU,FAC,BIG],[m("256-bit intermediate arithmetic",BIG),m("compute_swap, provide_liquidity arithmetic",PAIR)],[],["success of fault-free operations"])
prop("C22","Migrating contracts preserves everything users hold",
 "Migration of a pair (by the factory, for the owner) or of the factory or router (by their admin) changes no balance, reserve, supply, registry entry, recorded decimals, whitelist, owner or setting, and all operations continue to behave as before it. A pair is migrated to exactly the requested code id, or the configured pair code id when none is given, and nobody but the owner can cause it.",
 ["histories","schedules","configurations"],"migrations at every point of a history, raced with other operations, repeated and retried",
 "Tests only look at the message emitted; migrate entry points are never executed.",
 [PAIR,FAC,ROU],[m("migrate entry points only rewrite the version record",PAIR),m("execute_migrate_pair",FAC)],[],["complete state before/after","contract code ids"])
prop("C23","Token ledgers respect supply, cap and allowances in time",
 "For every token instantiated from the token code, balances add up to the supply, the initial balances and later mints never bring the supply above the configured cap and only the configured minter can mint. Tokens leave an account only by its own call or by a spender within an allowance that is unexpired at the block's height and time, and each use lowers the allowance by exactly the amount used, also when a pair pulls a deposit; a transfer within the balance, or a delegated one within an unexpired allowance, is not refused.",
 ["histories","schedules","inputs"],"all histories of transfers, mints, burns, delegated spends and deposits with block time and height jumps around expirations",
 "Token tests cover instantiation and one mint; allowances with expiry and the pair as a spender over time are not tested.",
 [TOK,"packages/haloswap/src/token.rs",PAIR],[m("instantiate: cap check, minter",TOK),m("delegation to the cw20 implementation",TOK)],[],["token queries"])
prop("C24","A reverse quote is enough to buy what it promises",
 "If nothing happens in between, offering one unit more than the pair's ReverseSimulation answers for an obtainable amount b (up to 99% of the asked reserve) returns at least b (at least b - b/10^15 for b of 10^15 and more), and offering one unit less never returns more than b. The router's reverse simulation of a route equals the pairs' answers composed from the last hop to the first.",
 ["histories","inputs","schedules"],"all states reached by histories, both directions, all obtainable amounts, routes of 1 to 5 hops",
 "Tests check one reverse quote on a mocked pair and never execute it.",
 [PAIR,ROU],[m("compute_offer_amount",PAIR),m("reverse_simulate_swap_operations",ROU)],[],["pair ReverseSimulation / router ReverseSimulateSwapOperations queries","swap executed right after"])
prop("C25","256-bit fixed-point arithmetic is exact or aborts",
 "Addition, subtraction, multiplication, division, ratio, parsing and printing of the 256-bit integers and 18-digit decimals return the mathematically exact result rounded toward zero, or abort on overflow and division by zero. Printing followed by parsing returns the same value.",
 ["inputs"],"all operand values",
 "Tests sample a few dozen operand pairs.",
 [BIG],[m("operator implementations over U256",BIG)],[],["library functions"])
prop("C26","Public answers state what the ledgers hold",
 "At every moment of every history, a pair's Pool query names the pair's two assets with exactly the balances the pair's account holds of them at that moment and, as total share, exactly the supply of its liquidity token, and a token's balance and allowance queries for single accounts agree with its full listings. The answers are right at once after any swap, deposit, withdrawal, donation, burn, migration or failed and retried transaction.",
 ["histories","schedules","crash_points"],"every state between any two transactions of every history, for every pair and token",
 "Tests query a pool once on mocked balances; whether an answer still matches the ledgers after an arbitrary history of operations and failures is not tested.",
 [PAIR,TOK,AST,QRY],[m("query_pools reads the balances",AST),m("query_pool",PAIR),m("query_token_info",QRY)],[],["pair Pool query","token queries","bank balances"])
prop("C27","No round trip through a pool is profitable",
 "An account that deals alone with a pool that has liquidity outstanding, in any sequence of swaps in either direction, deposits, withdrawals and donations of any sizes, and ends with the liquidity tokens it started with, never ends with at least as much of both assets and more of one. Such a sequence never leaves the pool with a smaller reserve product than it found.",
 ["histories","inputs","schedules"],"every state a history can reach, then every sequence of up to 20 dealings of one account with one pool",
 "Tests never chain operations; rounding that favours the trader shows only when swaps, deposits and withdrawals of particular sizes are combined.",
 [PAIR],[m("compute_swap rounding",PAIR),m("share and refund rounding",PAIR+" provide_liquidity, withdraw_liquidity")],[],["balances of the account and the pair"])
prop("C28","The order in which assets are listed makes no difference",
 "Take any history and write it down again with the two assets of any pair listed in the other order when it is created (their minimums and decimals with them), and the two assets of any deposit listed in the other order. Every transaction then succeeds or fails as before, every balance, supply, allowance and setting is the same after it, and every amount reported or quoted for the same assets is the same.",
 ["histories","configurations","inputs"],"every history and every choice of listing orders in it",
 "Tests use one listing order; a mix-up between the first and the second asset shows only on lopsided pools, unequal decimals or unequal minimums in the other order.",
 [PAIR,FAC,FST,AST],[m("deposits matched to pools by asset, not by position",PAIR+" provide_liquidity"),m("decimals and minimums follow their asset",FAC),m("pair_key",FST)],[],["twin execution: all ledgers and answers"])
prop("C29","Waiting makes no difference",
 "As long as no allowance expires, when things happen does not matter: the same transactions in the same order, at any other block heights and times and split into blocks in any other way, succeed or fail alike and leave every balance, supply, allowance and setting, and every reported or quoted amount, the same.",
 ["histories","schedules","configurations"],"every history, every assignment of heights, times and block boundaries to it, with clock jumps from seconds to years",
 "Tests run at one fixed block; behaviour that depends on the height, the time or on how many transactions share a block never shows.",
 [PAIR,FAC,ROU,TOK],[m("no handler but the token's allowance check reads the block",PAIR+", "+FAC+", "+ROU)],[],["twin execution: all ledgers and answers"])
prop("C30","No address or coin name is favoured",
 "Take any history and give every account, every contract and every coin another name (addresses the chain could as well have assigned, coins exchanged among valid identifiers that stay distinct when written one after another). Every transaction succeeds or fails as before, and every balance, supply, allowance, setting and every reported or quoted amount is the same under the new names.",
 ["histories","configurations","inputs"],"every history and every renaming of its accounts, contracts and coins",
 "Tests use a handful of short fixed names; behaviour that depends on how an address or denomination is spelled, sorted or how long it is never shows.",
 [PAIR,FAC,FST,ROU,AST],[m("assets compared by identity",AST),m("pair_key sorts raw identifiers",FST),m("whitelist compared by address",PAIR)],[],["twin execution: all ledgers and answers"])
prop("C31","An approval to a pair is spent only by its giver's own deposits",
 "An allowance that an account gives a pair falls only in a transaction in which that same account deposits into that pair or lowers the allowance itself, and by no more than the deposit's stated amount of that token. Whatever anyone else sends to the pair, the router, the factory or the tokens, in any order, with any receiver or claimed sender, takes no token out of an account that merely has an approval standing.",
 ["histories","schedules","inputs"],"all interleavings of approvals, deposits naming other receivers, forged notifications, routes and hostile contracts",
 "Tests never leave an approval standing while others act.",
 [PAIR,TOK],[m("TransferFrom names the caller as owner",PAIR+" provide_liquidity")],[],["token allowances and balances"])
prop("C32","What others do elsewhere makes no difference",
 "A history of users, pools, routes and registrations comes out the same, transaction by transaction in success, amounts, balances, supplies, allowances, settings and registry entries, when other accounts use the same chain at any times in between: hundreds of other pairs created, other coins registered, other tokens launched, held, approved and traded, other pools filled, traded, routed through and drained, and coins or tokens nobody here asked for sent to the pairs, the liquidity tokens, the router, the factory or the users of the history.",
 ["histories","schedules"],"every history together with every amount and interleaving of activity in other pools, coins, tokens and accounts",
 "Tests hold one or two pairs and nobody else; limits, shared records and answers that depend on how much else is on the chain never show.",
 [FAC,FST,ROU,PAIR,AST,QRY],[m("pairs and coins are kept under their own keys",FST),m("balances are asked for by name",QRY),m("each pair keeps its own record",PAIR)],[],["twin execution: all ledgers and answers"])
prop("C33","Operations do not get more expensive as the system is used",
 "The storage accesses, queries and messages that a swap, deposit, withdrawal, route, pair creation, registration, migration, token call or public query needs, and the bytes they move, do not grow with the number of pairs, listed coins, token holders or allowances there are, nor with the number of operations a pool has seen before; a page of the registry costs in proportion to its length and not to the registry's. A pool that has taken many swaps takes the next one as well.",
 ["histories","schedules"],"every operation on chains that range from just set up to hundreds of pairs, holders, listed coins and past operations",
 "On a chain an operation whose cost grows with use one day exceeds the block's gas and the pool is stuck; tests never measure cost and never build up much state.",
 [FAC,FST,ROU,PAIR,TOK],[m("lookups by key, pages bounded by take(limit)",FST),m("a pair's record has a fixed size",PAIR)],[],["host calls and bytes per transaction and query"])
prop("C34","A token is launched exactly as described or not at all, and stays so",
 "Launching a token with a name of 3 to 50 bytes, a symbol of 3 to 12 letters or dashes, at most 18 decimals, distinct valid accounts with initial balances whose total fits 128 bits and does not exceed the cap, and a valid minter if any, succeeds, and the token then answers exactly this name, symbol, decimals, minter and cap and these balances; every other launch is refused and leaves nothing behind. Whatever is done with or around a token afterwards, its name, symbol and decimals never change.",
 ["histories","inputs"],"every launch message, anywhere in any history, and every later operation on or around the token",
 "Tests launch three or four tokens with plain names and never look at them again; limits measured in the wrong unit, single letters left out of the alphabet, lost caps and descriptions that change later never show.",
 [TOK,"packages/haloswap/src/token.rs"],[m("InstantiateMsg::validate","packages/haloswap/src/token.rs"),m("cap compared with the whole initial supply",TOK)],
 [s("token info","name, symbol, decimals, supply and minter of a token","cw20-base TOKEN_INFO")],["token TokenInfo and Minter queries","token balances"])
out=os.path.join(os.path.dirname(__file__),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
for p in P:
    assert len(p["title"])<=80,(p["id"],len(p["title"]))
