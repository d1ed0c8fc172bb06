//! Per property: how many runs the quick tier makes, and how its cases are counted.
use serde_json::{json, Value};

pub struct Prop {
    pub id: &'static str,
    pub quick: u64,
    pub rule: &'static str,
}

macro_rules! rule {
    ($what:expr) => {
        concat!(
            "Cases are the events of seeded simulated histories that this property judges: ",
            $what,
            " Refused or skipped events the property does not speak about are not counted. Two cases are the same when they agree in ",
            "operation kinds, roles of the accounts involved, and the powers of two of the amounts, reserves and supplies involved."
        )
    };
}

pub const ALL: &[Prop] = &[
    Prop { id: "C01", quick: 18000, rule: rule!("every transaction that changed a reserve of a pair without depositing or withdrawing, compared in exact 256-bit arithmetic.") },
    Prop { id: "C02", quick: 18000, rule: rule!("every transaction that changed a reserve or the liquidity supply of a pair with liquidity outstanding, compared in exact 512-bit arithmetic.") },
    Prop { id: "C03", quick: 18000, rule: rule!("every executed swap (direct or inside a route) and every quote compared with the exact price.") },
    Prop { id: "C04", quick: 18000, rule: rule!("every executed swap that carried a price guard, and every guarded swap refused because of it.") },
    Prop { id: "C05", quick: 18000, rule: rule!("every executed deposit, and every deposit refused for its form.") },
    Prop { id: "C06", quick: 18000, rule: rule!("every executed deposit that carried a tolerance, and every deposit refused because of it.") },
    Prop { id: "C07", quick: 18000, rule: rule!("every first deposit executed or refused for sender or minimum, and every later deposit by an account the requirements would not admit.") },
    Prop { id: "C08", quick: 18000, rule: rule!("every executed withdrawal, with full-exit suffixes in half of the runs.") },
    Prop { id: "C09", quick: 15000, rule: rule!("every transaction that changed or tried to change a liquidity token's supply or a holding of it.") },
    Prop { id: "C10", quick: 15000, rule: rule!("every transaction in which an injected fault fired or a step failed, and every retry of one, with the complete state compared before and after.") },
    Prop { id: "C11", quick: 15000, rule: rule!("every route with a minimum executed, or refused because of it.") },
    Prop { id: "C12", quick: 15000, rule: rule!("every route executed, quoted, or refused for its form.") },
    Prop { id: "C13", quick: 15000, rule: rule!("every successful transaction, all balances, supplies and allowances of the whole chain compared with those it names; transactions through hostile tokens compared for everything outside their reach.") },
    Prop { id: "C14", quick: 10500, rule: rule!("every pair creation executed or refused, and the registry's answers for all pairs in both orders after every transaction that could have touched it.") },
    Prop { id: "C15", quick: 4000, rule: rule!("every page fetched, completed scans judged against the pairs present at their start.") },
    Prop { id: "C16", quick: 15000, rule: rule!("every configuration, registration and migration call executed or refused, and every creation's code ids.") },
    Prop { id: "C17", quick: 15000, rule: rule!("every decimals registration and every creation executed or refused for unknown decimals.") },
    Prop { id: "C18", quick: 15000, rule: rule!("every forged notification or internal call, and every genuine routed step.") },
    Prop { id: "C19", quick: 4000, rule: rule!("every transaction executed at least three times: in its run, in the block's re-execution after a loss of everything uncommitted, and in another process with another clock and other entropy; in every run a further process syncs from a committed state and executes the remaining blocks.") },
    Prop { id: "C20", quick: 15000, rule: rule!("every swap, deposit, withdrawal and creation event compared with the balances that moved.") },
    Prop { id: "C21", quick: 18000, rule: rule!("every operation the model calls valid, attempted without a fault, with a fault-free suffix in which every holder exits.") },
    Prop { id: "C22", quick: 15000, rule: rule!("every migration executed or refused, the complete state compared; violating histories are executed again without their migrations.") },
    Prop { id: "C23", quick: 15000, rule: rule!("every token call executed or refused, at its block's height and time.") },
    Prop { id: "C24", quick: 15000, rule: rule!("every reverse quote, followed by a trial execution at one unit more and one unit less, and every reverse route quote.") },
    Prop { id: "C26", quick: 18000, rule: rule!("every pool answer compared with the ledgers, after each transaction that changed the pool and whenever a client asks, and every allowance or balance that a token answers after changing it.") },
    Prop { id: "C27", quick: 18000, rule: rule!("every round trip: 3 to 20 dealings of one account with one pool on a copy of a state some history reached, all shares returned.") },
    Prop { id: "C28", quick: 12000, rule: rule!("every transaction and quote of a history compared with the same one in a twin history whose pairs and deposits list their assets in the other order.") },
    Prop { id: "C29", quick: 12000, rule: rule!("every transaction and quote of a history compared with the same one in a twin history at other times, heights and block boundaries.") },
    Prop { id: "C30", quick: 12000, rule: rule!("every transaction and quote of a history compared with the same one in a twin history with other addresses and coin names.") },
    Prop { id: "C32", quick: 5000, rule: rule!("every transaction and quote of a history compared with the same one on a chain where other accounts are busy with other coins, tokens and pools.") },
    Prop { id: "C33", quick: 5000, rule: rule!("every transaction of a history, its host calls and the bytes they move compared with those of the same transaction on a chain with up to 90 more pairs, more holders, allowances and past trades.") },
    Prop { id: "C34", quick: 15000, rule: rule!("every launch of a token executed or refused; what a token says of itself is compared around every later transaction.") },
    Prop { id: "C31", quick: 18000, rule: rule!("every transaction that lowered an allowance given to a pair, or took tokens from an account that has one standing.") },
];

pub fn find(id: &str) -> Option<&'static Prop> {
    ALL.iter().find(|p| p.id == id)
}

pub fn components() -> Value {
    json!({
        "real_code": ["halo-pair", "halo-factory", "halo-router", "halo-token (with its cw20-base dependency)", "haloswap", "bignumber",
            "cosmwasm-std (storage, serialisation, querier wrappers)"],
        "stubs": ["chain host: transactions, message and reply dispatch, bank, contract instances, block clock, address codec, query routing (sim/src/chain.rs)",
            "hostile token contract (sim/src/codes.rs)", "clients, mempool and other nodes (sim/src/gen.rs, sim/src/run.rs)",
            "process clock and entropy (sim/src/env.rs)"]
    })
}

pub fn assumptions() -> Vec<&'static str> {
    vec![
        "contracts run as native code built from /repo's working tree with overflow checks on; a panic is an aborted call, as a wasm trap is",
        "the chain host follows wasmd: depth-first message execution, reply_on semantics, rollback of a failed transaction or caught submessage, one writer at a time",
        "gas is not metered; running out of gas is injected at any host call instead",
    ]
}
