// Fee tiers (A20): in every reachable state the configured tiers are valid and distinct.
pub mod vtiers {
use vstd::prelude::*;
use crate::prelude::*;
use crate::{FeeTier, Pool, PoolKey, Config};
use crate::msg::ExecuteMsg;
use crate::entrypoints::common::TimeStampExt;
verus! {
pub open spec fn tier_ok(ft: FeeTier) -> bool { 1 <= ft.tick_spacing <= 100 && ft.fee.0 < E12() }
pub open spec fn tiers_ok(s: SV) -> bool {
    s.config is Some ==> cfg(s).fee_tiers@.no_duplicates() && forall|i: int| 0 <= i < cfg(s).fee_tiers@.len() ==> tier_ok(#[trigger] cfg(s).fee_tiers@[i])
}
pub proof fn lemma_tiers_init(s: SV, t: SV, who: Seq<u8>, fee: crate::math::types::percentage::Percentage)
    requires instantiated(s, t, who, fee)
    ensures tiers_ok(t)
{}
pub open spec fn same_tiers(s: SV, t: SV) -> bool { t.config is Some ==> s.config is Some && cfg(t).fee_tiers@ == cfg(s).fee_tiers@ }
pub proof fn lemma_route_config(hs: Seq<crate::interface::SwapHop>, tr: Seq<RtRec>, now: u64, sender: Seq<u8>, me: Seq<u8>, st0: RtSt, st: RtSt)
    requires rt_run(hs, tr, now, sender, me, st0, st)
    ensures st.s.config == st0.s.config
    decreases hs.len()
{ if hs.len() > 0 { lemma_route_config(hs.drop_last(), tr.drop_last(), now, sender, me, st0, tr.last().pre); } }
/// every message keeps the set valid; only the admin's two messages change it, by exactly one tier
pub proof fn lemma_tiers_executed(s: SV, t: SV, env: Env, info: MessageInfo, msg: ExecuteMsg, out: Seq<CosmosMsg>)
    requires tiers_ok(s), executed(s, t, env, info, msg, out)
    ensures tiers_ok(t), msg is AddFeeTier || msg is RemoveFeeTier || same_tiers(s, t)
{
    let who = info.sender@; let now = env.block.time.millis_spec(); let m = mvs(out);
    match msg {
        ExecuteMsg::AddFeeTier { fee_tier } => {
            let (a, b) = (cfg(s).fee_tiers@, cfg(t).fee_tiers@);
            assert forall|i: int| 0 <= i < b.len() implies tier_ok(#[trigger] b[i]) by { if i < a.len() { assert(b[i] == a[i]); } }
            assert forall|i: int, j: int| 0 <= i < b.len() && 0 <= j < b.len() && i != j implies b[i] != b[j] by { if i < a.len() { assert(b[i] == a[i]); assert(a.contains(a[i])); } if j < a.len() { assert(b[j] == a[j]); assert(a.contains(a[j])); } }
        }
        ExecuteMsg::RemoveFeeTier { fee_tier } => {
            let (a, b) = (cfg(s).fee_tiers@, cfg(t).fee_tiers@);
            let n = choose|n: int| 0 <= n < a.len() && a[n] == fee_tier && b == #[trigger] a.remove(n);
            assert forall|i: int| 0 <= i < b.len() implies tier_ok(#[trigger] b[i]) by { assert(b[i] == a[if i < n { i } else { i + 1 }]); }
            assert forall|i: int, j: int| 0 <= i < b.len() && 0 <= j < b.len() && i != j implies b[i] != b[j] by { assert(b[i] == a[if i < n { i } else { i + 1 }]); assert(b[j] == a[if j < n { j } else { j + 1 }]); }
        }
        ExecuteMsg::SwapRoute { amount_in, expected_amount_out, slippage, swaps } => {
            let st0 = RtSt { s, amt: amount_in.0 as int, funds: info.funds@, m: Seq::<MV>::empty() };
            let st = choose|st: RtSt| st.s == t && st.m == m && st.amt >= min_out(expected_amount_out.0 as int, slippage.0 as int) && #[trigger] rt_ok(swaps@, now, who, env.contract.address@, st0, st);
            let tr = choose|tr: Seq<RtRec>| rt_run(swaps@, tr, now, who, env.contract.address@, st0, st);
            lemma_route_config(swaps@, tr, now, who, env.contract.address@, st0, st);
        }
        _ => {}
    }
}
} // verus!
} // mod vtiers
