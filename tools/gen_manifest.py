#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
props=[json.loads(l) for l in open(os.path.join(root,"properties.jsonl"))]
NA={"C25":"A pure function of its operands: no schedule, clock, fault, I/O or second party can influence it, so deterministic simulation has nothing to decide. The arithmetic is exercised with exact oracles wherever the claimed properties depend on it (C01, C03, C05, C08, C20, C24)."}
NOTE={
"C01":"Reserve products compared in exact 256-bit arithmetic after every transaction of every simulated history.",
"C02":"Value per share compared in exact 512-bit arithmetic after every transaction; withdrawals and deposits also per reserve.",
"C03":"Every executed swap compared with an exact integer model and with the pair's own quote taken on a copy of the state it executed in.",
"C04":"Guard decided by the model on the state at execution; a swap within the 18-digit rounding of the limit may go either way.",
"C05":"Mint, payments and refusals compared with an exact model on the state at execution.",
"C06":"Tolerance decided by the model on the state at execution; a deposit within 18-digit rounding of the limit may go either way.",
"C07":"Requirements taken from the creation message and applied by the model whenever supply is zero.",
"C08":"Refunds compared with the exact model; histories end with every holder leaving in half of the runs.",
"C09":"The liquidity ledger of every pair is followed in full; every change has to be accounted for by a deposit, withdrawal or burn.",
"C10":"Faults are injected at a chosen host call of a chosen transaction; the complete chain state before and after is compared by hash, the success case by the model.",
"C11":"Receiver balances measured on the ledgers, not taken from events.",
"C12":"Delivered amounts compared with the composition of single hops by the model and with the router's simulation on a copy of the state.",
"C13":"All balances, supplies and allowances of all accounts compared after every transaction; hostile tokens re-enter through their hooks.",
"C14":"The registry is compared with the set of pairs the history created, in both orders and with letter-case variants.",
"C15":"Scans run as clients whose pages interleave with creations.",
"C16":"Every configuration answer and code id compared with the model after every transaction.",
"C17":"Registered decimals followed by the model; pairs' recorded decimals compared with those at creation for ever.",
"C18":"Forged messages are sent by users, tokens, pairs' liquidity tokens and hostile contracts; each has to be refused with the state unchanged.",
"C19":"Node crash at an arbitrary host call, block re-execution from committed state, a second process with other clock and entropy, and a third one that syncs mid-history; events, data, host calls and state hashes have to agree. Contracts run natively: floating point or wasm-only nondeterminism is not covered.",
"C20":"Event attributes compared with the balance movements of the same transaction.",
"C21":"Progress: everything the model calls valid has to succeed at the first fault-free attempt, and everyone has to get out in a fault-free suffix. Operations whose intermediate values leave 128 bits are outside the property.",
"C22":"Complete state compared around each migration; a violation in a history is attributed to migrations when it disappears without them.",
"C23":"The token model follows supply, cap, allowances and expirations at block height and time.",
"C26":"Pool answers compared with the ledgers after every transaction that touched the pool and at clients' requests; single balance and allowance answers compared with the full listings.",
"C27":"Round trips run on copies of states that histories reach; profit and reserve product judged exactly. Sequences of at most 20 dealings of one account with one pool.",
"C28":"Each history runs twice, once with the listing orders exchanged; outcomes, ledgers and amounts compared step by step. Without injected faults and hostile tokens, which depend on message order.",
"C29":"Each history runs twice, with other heights, times and block boundaries; faults included, expiring allowances left out.",
"C30":"Each history runs twice, with other addresses and coin names. Without injected faults and hostile tokens.",
"C31":"Allowances to pairs and balances of their givers compared around every transaction.",
"C32":"Each history runs twice, the second time on a chain with 24 to 270 more pools, more coins, tokens, holders and approvals, busy before and between its steps. Without injected faults.",
"C33":"Host calls and bytes of every transaction compared with those of the same one on the busier chain; repeated operations and queries compared on the young and the busy chain. Limits: 16 calls and 1 KiB above.",
"C34":"Launch messages with every field around its limits anywhere in a history; what a token says of itself compared around every later transaction.",
"C24":"Answers executed on a copy of the state one unit above and one unit below.",
}
TR=" Seeded search: a clean batch is evidence, not proof. Trusts the chain stand-in (sim/src/chain.rs), which follows wasmd's message, reply and rollback rules, and the model in sim/src/model.rs."
checks=[]
for p in props:
    i=p["id"]
    if i in NA: continue
    checks.append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough",
      "evidence_file":f"evidence/{i}.json","technique":"deterministic simulation with fault injection","level":"exploration","level_note":NOTE[i]+TR})
m={"version":1,"setup_cmd":"cd sim && cargo build --offline --release","checks":checks,
   "not_applicable":[{"property":k,"reason":v} for k,v in NA.items()],
   "notes":"No hooks in /repo: the simulator drives the contracts through their public entry points. Known findings and repairs: known_findings.json. Replay: ./check.sh --replay FILE. Determinism self-test: sim/target/release/halosim selftest --runs N --seed S."}
json.dump(m,open(os.path.join(root,"MANIFEST.json"),"w"),indent=1)
print(len(checks))
