#!/usr/bin/env python3
"""one-off editor for props.json: which functions' contracts state each property (own) or support it (dep)"""
import json
d=json.load(open('props.json'))
C='entrypoints::common::'; E='entrypoints::execute::'; Q='entrypoints::query::'; S='state::'; P='storage::pool::Pool::'; T='storage::tick::Tick::'; PO='storage::position::Position::'; M='math::clamm::'; TM='storage::tickmap::'
W='contract::execute'
ARI=['math::types::*']
TECH="contract-based deductive verification (Verus) of the extracted source; a bounded run of the compiled contract looks for failing inputs"
TR=" Trusts the extractor, Verus/Z3 and the assumed contracts of the storage, message and integer shims."
def up(k,level,note,own,dep,**kw):
    p=d['properties'][k]; p.update(level=level,technique=TECH,note=note+TR,own=own,dep=dep,**kw)
up('A02','proof',"The tick-price function and its inverse carry exact contracts; the price table the inverse relies on is established by a verified checker that is compiled and executed on every run.",
   ['math::log::*','math::types::sqrt_price::calculate_sqrt_price','math::types::sqrt_price::get_max_tick','math::types::sqrt_price::get_min_tick','math::types::sqrt_price::SqrtPrice::from_tick','math::types::sqrt_price::get_max_sqrt_price','math::types::sqrt_price::get_min_sqrt_price','math::types::sqrt_price::check_tick_to_sqrt_price_relationship'],ARI,table=True)
up('A05','proof',"calculate_swap is proved to follow the step relation to completion (sw_run) with exact totals, limits and direction; the handlers pass the caller's arguments through.",
   [C+'calculate_swap',C+'swap_internal',E+'swap',W,P+'update_tick',S+'get_closer_limit'],ARI+[M+'*',P+'*',T+'cross',S+'next_initialized',S+'prev_initialized','math::log::*',S+'get_pool',S+'get_tick'])
up('A06','proof',"quote, route and the executing paths share one contract (sw_ok, rt_quote_ok), queries take storage by shared reference, and the frame of swap_internal is exact.",
   [Q+'quote',Q+'quote_route',C+'calculate_swap',C+'swap_internal',C+'route',C+'swap_route_internal',E+'swap',E+'swap_route','contract::query',S+'update_tick'],ARI+[M+'*',P+'*',T+'cross',W])
up('A07','proof',"add_fee, Position::update and withdraw_protocol_fee carry exact contracts for the split, the claim and the payout.",
   [P+'add_fee',P+'withdraw_protocol_fee',E+'withdraw_protocol_fee','math::types::fee_growth::FeeGrowth::from_fee','math::types::fee_growth::FeeGrowth::to_fee','math::types::fee_growth::FeeGrowth::unchecked_add','math::types::fee_growth::FeeGrowth::unchecked_sub',PO+'update',PO+'claim_fee',E+'claim_fee',P+'update_tick'],ARI+[C+'calculate_swap',W,PO+'modify',E+'*'])
up('A08','proof',"Tick::create, Tick::cross, calculate_fee_growth_inside and Position::update carry exact modular contracts; lemma_executed_grown shows over the handlers' contracts that every message credits a range exactly the growth of the swap steps inside it, on top of the reachable-state invariant lemma_inv_executed.",
   [T+'create',T+'cross','math::types::fee_growth::FeeGrowth::from_fee','math::types::fee_growth::FeeGrowth::to_fee','math::types::fee_growth::FeeGrowth::unchecked_add','math::types::fee_growth::FeeGrowth::unchecked_sub','math::types::fee_growth::calculate_fee_growth_inside',PO+'update',PO+'claim_fee',PO+'modify',P+'add_fee',P+'update_tick',C+'create_tick',E+'claim_fee',C+'swap_internal'],ARI+[C+'*',E+'create_position',E+'remove_position',P+'*',S+'*',W])
up('A09','proof',"Every function that changes liquidity carries an exact contract for gross, net and active liquidity; lemma_inv_executed shows over the handlers' contracts that every message keeps the sums (reachable-state invariant inv).",
   [T+'update',T+'update_liquidity_change',T+'calculate_new_liquidity_gross',T+'cross',P+'update_liquidity',P+'update_tick',PO+'modify',PO+'calculate_new_liquidity',PO+'create',PO+'remove',E+'create_position',E+'remove_position',E+'claim_fee',M+'calculate_max_liquidity_per_tick',C+'calculate_swap',C+'swap_internal',C+'remove_tick_and_flip_bitmap'],ARI+[C+'*',S+'*',P+'*',W])
up('A10','proof',"flip, lookup and both searches carry exact contracts over an unbounded bitmap; ticks and marks change together; the reachable-state invariant (lemma_inv_executed) keeps marks and stored ticks equal under every message.",
   [TM+'*',S+'next_initialized',S+'prev_initialized',S+'get_bitmap',S+'get_bitmap_item',S+'flip_bitmap',S+'bitmap_key',S+'add_tick',S+'remove_tick',S+'update_tick',C+'create_tick',C+'remove_tick_and_flip_bitmap',S+'get_closer_limit',Q+'is_tick_initialized',E+'create_position',E+'remove_position'],ARI+[T+'*','storage::pool_key::*',W])
up('A11','proof',"Adding, removing, updating and transferring carry exact contracts over the whole position map; the reachable-state invariant (lemma_inv_executed) keeps the lists gap-free under every message.",
   [S+'add_position',S+'remove_position',S+'update_position',S+'get_position',S+'get_position_length',S+'get_position_by_key',S+'position_key',C+'transfer_nft',E+'transfer_position',E+'handle_transfer_nft',E+'handle_send_nft',E+'handle_burn',E+'handle_mint',E+'create_position',E+'remove_position'],[W,C+'*',E+'*'])
up('A12','proof',"Every handler's contract states who may succeed and what may change.",
   [C+'check_can_approve',C+'check_can_send',C+'update_approvals',C+'transfer_nft',E+'change_admin',E+'change_protocol_fee',E+'change_fee_receiver',E+'withdraw_protocol_fee',E+'add_fee_tier',E+'remove_fee_tier',E+'handle_*',E+'remove_position',E+'claim_fee',E+'transfer_position',P+'withdraw_protocol_fee',W,'contract::instantiate'],[S+'*',E+'*'])
up('A13','proof',"Position::create and swap_route carry the bound checks as postconditions.",
   [PO+'create',E+'create_position',E+'swap_route',M+'calculate_min_amount_out',W],ARI+[C+'swap_route_internal'])
up('A14','proof',"Asset::transfer and transfer_from carry exact contracts for the messages emitted; every handler's contract fixes its complete message list.",
   ['interface::*',C+'swap_internal',C+'swap_route_internal',E+'create_position',E+'swap',E+'swap_route',E+'claim_fee',E+'remove_position',E+'withdraw_protocol_fee',E+'handle_mint',E+'handle_burn',W],[C+'*',E+'*',PO+'*'])
up('A15','proof',"create_pool, Pool::create and PoolKey::new carry exact contracts.",
   [E+'create_pool',P+'create','storage::pool_key::PoolKey::new','math::types::sqrt_price::check_tick_to_sqrt_price_relationship',M+'check_tick','storage::fee_tier::FeeTier::new',S+'get_pool',W],ARI+['math::log::*'])
up('A16','proof',"Every key function carries its exact byte-level contract; lemmas prove the encodings injective and decoding inverse.",
   ['storage::pool_key::PoolKey::key','storage::pool_key::PoolKey::from_bytes','storage::fee_tier::FeeTier::key','storage::fee_tier::FeeTier::from_bytes',S+'tick_key',S+'position_key',S+'bitmap_key'],[])
up('A17','proof',"Both sides carry the same contracts: the SDK's arithmetic, tick and search functions, the liquidity and fee estimates and simulate_swap (step relation sw_step, run to completion) are proved against the specifications the contract's own functions are proved against. A caller's ticks are decoded from JavaScript values by a trusted shim; BigInt conversions at the JavaScript boundary are outside.",
   ['wasm/*'],ARI+['math::*','logic::math::*',TM+'*',C+'calculate_swap',S+'next_initialized',S+'prev_initialized',S+'get_closer_limit',P+'*','storage::*'],sets=['contract','wasm'])
up('A18','proof',"The estimates carry the charge bound itself as postcondition: in every state a pool at that price can be in, a position with the estimated liquidity costs at most the offered amount.",
   ['logic::math::*',M+'get_delta_x',M+'get_delta_y',M+'calculate_amount_delta','math::types::sqrt_price::calculate_sqrt_price'],ARI)
up('A19','proof',"Every query handler and the dispatch carry contracts stating exactly what is reported.",
   [Q+'*',C+'tickmap_slice',C+'humanize_approvals',S+'get_pools',S+'get_all_positions',S+'get_all_position_keys',S+'get_position_length','contract::query'],[S+'*',TM+'*',C+'calculate_swap',C+'route'])
up('A20','proof',"add_fee_tier and remove_fee_tier carry exact contracts; lemma_tiers_executed shows every message keeps the set valid.",
   [E+'add_fee_tier',E+'remove_fee_tier','storage::fee_tier::FeeTier::new','contract::instantiate',W],[E+'*'])
d['properties'].setdefault('A21',{})
up('A21','proof',"lemma_solvent: by induction over any history, from lemma_executed_covered, which shows over the handlers' contracts that no message lets the exact worth owed by a pool grow by more than it charges minus what it pays out (exact real arithmetic, rounding bounded per step). Transfers to the contract outside its messages and token contracts that misreport transfers are outside.",
   [C+'calculate_swap',C+'swap_internal',C+'swap_route_internal',M+'compute_swap_step',M+'get_next_*',M+'get_delta_x',M+'get_delta_y',M+'calculate_amount_delta',P+'add_fee',P+'update_tick',P+'update_liquidity',P+'withdraw_protocol_fee',T+'cross',PO+'*','math::types::fee_growth::FeeGrowth::from_fee','math::types::fee_growth::FeeGrowth::to_fee','math::types::fee_growth::FeeGrowth::unchecked_add','math::types::fee_growth::FeeGrowth::unchecked_sub','math::types::fee_growth::calculate_fee_growth_inside',S+'update_position',S+'update_tick',E+'create_position',E+'remove_position',E+'claim_fee',E+'swap',E+'swap_route',E+'withdraw_protocol_fee',E+'handle_mint',E+'handle_burn',W],ARI+[C+'*',E+'*',S+'*',P+'*',T+'*',M+'*','interface::*','math::log::*'],secs=15,bounded='random histories; what the pools owe is recomputed from storage after every message')
json.dump(d,open('props.json','w'),indent=1)
