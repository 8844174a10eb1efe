#rem ---- interface: assets ----
#mod interface
pub open spec fn asset_name(i: AssetInfo) -> Seq<u8> { match i { AssetInfo::Token { contract_addr } => contract_addr@, AssetInfo::NativeToken { denom } => denom@ } }
#fn interface::AssetInfo::from_denom
    ensures asset_name(r) == denom@, (r is Token) == addr_ok(denom@)
#fn interface::Asset::transfer
    ensures r is Ok ==> mvs(final(msgs)@) == mvs(old(msgs)@) + pay(asset_name(self.info), self.info is Token, self.amount.0 as int, info.sender@)
#start
    let ghost m0 = msgs@;
    proof { broadcast use vdecode_encode; }
#end
    proof { broadcast use vdecode_encode; if msgs@.len() > m0.len() { lemma_mvs_push(m0, msgs@.last()); assert(msgs@ =~= m0.push(msgs@.last())); } assert(mvs(msgs@) =~= mvs(m0) + pay(asset_name(self.info), self.info is Token, self.amount.0 as int, info.sender@)); }
#fn interface::Asset::transfer_from
    ensures r is Ok ==> can_charge(asset_name(self.info), self.info is Token, self.amount.0 as int, info.funds@)
        && mvs(final(msgs)@) == mvs(old(msgs)@) + charge(asset_name(self.info), self.info is Token, self.amount.0 as int, info.sender@, recipient@, info.funds@)
#start
    let ghost m0 = msgs@; let ghost rcp = recipient@;
#loop 0
    invariant_except_break __r0 is None
    invariant forall|j: int| 0 <= j < __i0 ==> (#[trigger] info.funds@[j]).denom@ != denom@, __s0@ == info.funds@, __i0 <= __s0@.len()
    ensures __r0 is None ==> (__i0 == info.funds@.len() && forall|j: int| 0 <= j < __i0 ==> (#[trigger] info.funds@[j]).denom@ != denom@),
        __r0 is Some ==> __i0 < info.funds@.len() && *(__r0->Some_0) == info.funds@[__i0 as int] && (__r0->Some_0).denom@ == denom@
    decreases __s0@.len() - __i0
#loopafter 0
    proof { lemma_fund_skip(info.funds@, denom@, __i0 as int); }
#end
    proof { broadcast use vdecode_encode; if msgs@.len() > m0.len() { lemma_mvs_push(m0, msgs@.last()); assert(msgs@ =~= m0.push(msgs@.last())); } assert(mvs(msgs@) =~= mvs(m0) + charge(asset_name(self.info), self.info is Token, self.amount.0 as int, info.sender@, rcp, info.funds@)); }
