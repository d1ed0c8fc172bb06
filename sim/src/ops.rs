//! The schedule language. A schedule is a genesis plus a flat list of steps; executing it is a pure
//! function of the schedule and the code under test. Names are symbolic and resolved at execution,
//! so a schedule with steps removed still makes sense (steps naming missing things are skipped).
use serde::{Deserialize, Deserializer, Serialize, Serializer};

use crate::chain::Fault;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Default)]
pub struct Amt(pub u128);
impl Serialize for Amt {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&self.0.to_string())
    }
}
impl<'de> Deserialize<'de> for Amt {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        s.parse().map(Amt).map_err(serde::de::Error::custom)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Asset {
    /// honest token
    T(u8),
    /// native coin
    N(u8),
    /// hostile token
    E(u8),
    /// liquidity token of the pair in a slot
    L(u8),
    /// the same honest token, named in upper case
    UpT(u8),
    /// a user account named as if it were a token
    FakeU(u8),
    /// a pair contract named as if it were a token
    FakeP(u8),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Acct {
    U(u8),
    P(u8),
    L(u8),
    T(u8),
    E(u8),
    Factory,
    Router,
    /// user, upper case
    UpU(u8),
    /// not an address
    Bad,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Hook {
    Swap {
        belief: Option<String>,
        max: Option<String>,
        to: Option<Acct>,
    },
    Withdraw,
    Route {
        hops: Vec<(Asset, Asset)>,
        min: Option<Amt>,
        to: Option<Acct>,
    },
    Garbage,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Exp {
    /// relative to the block in which the operation executes
    HeightIn(i64),
    TimeIn(i64),
    Never,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Cw {
    Transfer { to: Acct, amt: Amt },
    TransferFrom { owner: Acct, to: Acct, amt: Amt },
    Send { to: Acct, amt: Amt, hook: Hook },
    SendFrom { owner: Acct, to: Acct, amt: Amt, hook: Hook },
    Burn { amt: Amt },
    BurnFrom { owner: Acct, amt: Amt },
    Mint { to: Acct, amt: Amt },
    Inc { sp: Acct, amt: Amt, exp: Option<Exp> },
    Dec { sp: Acct, amt: Amt, exp: Option<Exp> },
    UpdateMinter { to: Option<Acct> },
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum EMode {
    Honest,
    Fail,
    Short,
    Lie(Amt),
    Panic,
    Reenter(Vec<Op>),
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Op {
    Send { denom: u8, to: Acct, amt: Amt },
    Cw { tok: Asset, msg: Cw },
    Provide {
        pair: u8,
        a: [(Asset, Amt); 2],
        /// coins attached beside those the listed native amounts need: (denom, amount) overrides
        funds: Option<Vec<(u8, Amt)>>,
        tol: Option<String>,
        recv: Option<Acct>,
    },
    RouteDirect {
        hops: Vec<(Asset, Asset)>,
        min: Option<Amt>,
        to: Option<Acct>,
        funds: Vec<(u8, Amt)>,
    },
    RouterStep { hop: (Asset, Asset), to: Option<Acct> },
    RouterAssert { asset: Asset, prev: Amt, min: Amt, recv: Acct },
    /// a notification sent by anyone, claiming anything
    Forge { target: Acct, claimed: Acct, amt: Amt, hook: Hook, funds: Vec<(u8, Amt)> },
    CreatePair {
        slot: u8,
        a: [Asset; 2],
        white: Vec<Acct>,
        mins: [Amt; 2],
    },
    AddNative { denom: u8, dec: u8 },
    UpdateConfig {
        owner: Option<Acct>,
        tok: Option<u64>,
        pair: Option<u64>,
    },
    MigratePair { target: Acct, code: Option<u64> },
    AdminMigrate { target: Acct, code: u64 },
    TokInst {
        slot: u8,
        dec: u8,
        init: Vec<(Acct, Amt)>,
        minter: Option<Acct>,
        cap: Option<Amt>,
        #[serde(default, skip_serializing_if = "Option::is_none")]
        name: Option<String>,
        #[serde(default, skip_serializing_if = "Option::is_none")]
        sym: Option<String>,
    },
    /// a pair set up by someone, not by the factory
    PairInst {
        slot: u8,
        a: [Asset; 2],
        dec: [u8; 2],
        white: Vec<Acct>,
        mins: [Amt; 2],
    },
    EvilSet { e: u8, dec: u8, mode: EMode },
    EvilMint { e: u8, to: Acct, amt: Amt },
    /// the hostile contract performs the operation in its own name
    Relay { e: u8, inner: Box<Op> },
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Step {
    /// the block ends; the next one starts dt seconds and dh heights later
    Block { dt: u64, dh: u64 },
    Tx {
        by: u8,
        ops: Vec<Op>,
        #[serde(default, skip_serializing_if = "Option::is_none")]
        fault: Option<Fault>,
    },
    /// a client asks for quotes on a pair in its present state
    Quote { pair: u8, first: bool, amt: Amt },
    /// a client asks the router for quotes
    RouteQuote { hops: Vec<(Asset, Asset)>, amt: Amt },
    /// on a copy of the present state: one account makes `n` dealings with a pair, then returns every
    /// share it got; the dealings follow from `seed` and what the account sees
    Solo { pair: u8, by: u8, seed: u64, n: u8 },
    /// client c fetches its next page (a first request starts a new scan)
    Page { c: u8, limit: Option<u32>, swap: bool },
    /// client c forgets its scan
    PageReset { c: u8 },
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct GenTok {
    pub dec: u8,
    pub each: Amt,
    /// the user who may mint, and the cap
    pub minter: Option<u8>,
    pub cap: Option<Amt>,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct GenDenom {
    pub denom: String,
    pub each: Amt,
    /// registered decimals, if registered at genesis
    pub dec: Option<u8>,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Genesis {
    pub salt: u64,
    pub users: u8,
    pub height: u64,
    pub time_ns: u64,
    pub toks: Vec<GenTok>,
    pub denoms: Vec<GenDenom>,
    /// decimals of the hostile tokens
    pub evils: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Schedule {
    pub genesis: Genesis,
    pub steps: Vec<Step>,
}
