// Hand-written shim: TRUSTED. The parts of cosmwasm-std, cw-storage-plus, cw20 and std the contract uses.
pub mod vext {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use crate::prelude::*;
use crate::{Config, Pool, Position, Tick, ContractError};
verus! {
// ---- strings and addresses: opaque byte sequences ----
#[verifier::external_body]
pub struct String { s: std::string::String }
impl View for String { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
#[verifier::external_body]
pub struct Addr { s: std::string::String }
impl View for Addr { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
#[verifier::external_body]
pub broadcast proof fn string_ext(a: String, b: String) ensures #![trigger a@, b@] a@ == b@ ==> a == b {}
#[verifier::external_body]
pub broadcast proof fn addr_ext(a: Addr, b: Addr) ensures #![trigger a@, b@] a@ == b@ ==> a == b {}
pub uninterp spec fn mk_string(b: Seq<u8>) -> String;
pub uninterp spec fn mk_addr(b: Seq<u8>) -> Addr;
#[verifier::external_body]
pub broadcast proof fn mk_string_view(a: String) ensures #[trigger] mk_string(a@) == a {}
#[verifier::external_body]
pub broadcast proof fn mk_addr_view(a: Addr) ensures #[trigger] mk_addr(a@) == a {}
/// lexicographic order on bytes (Rust's order on strings)
pub open spec fn seq_lt(a: Seq<u8>, b: Seq<u8>) -> bool
    decreases a.len()
{
    if a.len() == 0 { b.len() > 0 } else if b.len() == 0 { false }
    else if a[0] != b[0] { a[0] < b[0] } else { seq_lt(a.subrange(1, a.len() as int), b.subrange(1, b.len() as int)) }
}
pub open spec fn seq_cmp(a: Seq<u8>, b: Seq<u8>) -> core::cmp::Ordering {
    if a == b { core::cmp::Ordering::Equal } else if seq_lt(a, b) { core::cmp::Ordering::Less } else { core::cmp::Ordering::Greater }
}
impl String {
    #[verifier::external_body]
    pub fn default() -> (r: String) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &String) ensures *r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn vto_string(&self) -> (r: String) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn from_utf8(v: Vec<u8>) -> (r: Result<String, ContractError>) ensures r is Ok ==> r->Ok_0@ == v@ { unimplemented!() }
    #[verifier::external_body]
    pub fn from_slice(v: &[u8]) -> (r: Result<String, ContractError>) ensures r is Ok ==> r->Ok_0@ == v@ { unimplemented!() }
}
impl Clone for String { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl PartialEqSpecImpl for String { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &String) -> bool { self@ == o@ } }
impl PartialEq for String { #[verifier::external_body] fn eq(&self, o: &String) -> bool { unimplemented!() } }
impl PartialEqSpecImpl<Addr> for String { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Addr) -> bool { self@ == o@ } }
impl PartialEq<Addr> for String { #[verifier::external_body] fn eq(&self, o: &Addr) -> bool { unimplemented!() } }
impl PartialOrdSpecImpl for String {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &String) -> Option<core::cmp::Ordering> { Some(seq_cmp(self@, o@)) }
}
impl PartialOrd for String { #[verifier::external_body] fn partial_cmp(&self, o: &String) -> Option<core::cmp::Ordering> { unimplemented!() } }
impl Addr {
    #[verifier::external_body]
    pub fn unchecked(s: String) -> (r: Addr) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: String) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn vto_string(&self) -> (r: String) ensures r@ == self@ { unimplemented!() }
}
impl Clone for Addr { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl PartialEqSpecImpl for Addr { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Addr) -> bool { self@ == o@ } }
impl PartialEq for Addr { #[verifier::external_body] fn eq(&self, o: &Addr) -> bool { unimplemented!() } }
impl PartialEqSpecImpl<String> for Addr { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &String) -> bool { self@ == o@ } }
impl PartialEq<String> for Addr { #[verifier::external_body] fn eq(&self, o: &String) -> bool { unimplemented!() } }
impl<'a> PartialEqSpecImpl<&'a Addr> for Addr { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &&'a Addr) -> bool { self@ == o@ } }
impl<'a> PartialEq<&'a Addr> for Addr { #[verifier::external_body] fn eq(&self, o: &&'a Addr) -> bool { unimplemented!() } }
pub trait VEq { spec fn veq_spec(&self, o: &Self) -> bool; fn veq(&self, o: &Self) -> (r: bool) ensures r == self.veq_spec(o); }
impl VEq for [u8] { open spec fn veq_spec(&self, o: &[u8]) -> bool { self@ == o@ } #[verifier::external_body] fn veq(&self, o: &[u8]) -> (r: bool) { unimplemented!() } }
impl VEq for Vec<u8> { open spec fn veq_spec(&self, o: &Vec<u8>) -> bool { self@ == o@ } #[verifier::external_body] fn veq(&self, o: &Vec<u8>) -> (r: bool) { unimplemented!() } }
impl VEq for String { open spec fn veq_spec(&self, o: &String) -> bool { self@ == o@ } #[verifier::external_body] fn veq(&self, o: &String) -> (r: bool) { unimplemented!() } }
impl VEq for Addr { open spec fn veq_spec(&self, o: &Addr) -> bool { self@ == o@ } #[verifier::external_body] fn veq(&self, o: &Addr) -> (r: bool) { unimplemented!() } }
pub trait VNone<T> { fn vnone_ref(&self) -> (r: Option<&T>) ensures r is None; }
impl<T> VNone<T> for Vec<T> { fn vnone_ref(&self) -> (r: Option<&T>) { None } }
impl<T> VNone<T> for [T] { fn vnone_ref(&self) -> (r: Option<&T>) { None } }
#[verifier::external_body]
pub fn vstr() -> String { unimplemented!() }
#[verifier::external_body]
pub fn vvec1<T>(a: T) -> (r: Vec<T>) ensures r@ == seq![a] { unimplemented!() }

// ---- numbers ----
#[derive(Copy, Clone)]
pub struct Uint128(pub u128);
impl Uint128 {
    #[verifier::external_body]
    pub fn is_zero(&self) -> (r: bool) ensures r == (self.0 == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn zero() -> (r: Uint128) ensures r.0 == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn u128(&self) -> (r: u128) ensures r == self.0 { unimplemented!() }
}
impl PartialEqSpecImpl for Uint128 { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Uint128) -> bool { *self == *o } }
impl PartialEq for Uint128 { #[verifier::external_body] fn eq(&self, o: &Uint128) -> bool { unimplemented!() } }
impl PartialOrdSpecImpl for Uint128 {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Uint128) -> Option<core::cmp::Ordering> {
        if self.0 < o.0 { Some(core::cmp::Ordering::Less) } else if self.0 == o.0 { Some(core::cmp::Ordering::Equal) } else { Some(core::cmp::Ordering::Greater) }
    }
}
impl PartialOrd for Uint128 { #[verifier::external_body] fn partial_cmp(&self, o: &Uint128) -> Option<core::cmp::Ordering> { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<Uint128> for Uint128 {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: Uint128) -> bool { true }
    open spec fn sub_spec(self, o: Uint128) -> Uint128 { Uint128((self.0 - o.0) as u128) }
}
/// Uint128 subtraction panics on underflow
impl core::ops::Sub<Uint128> for Uint128 { type Output = Uint128;
    #[verifier::external_body]
    fn sub(self, o: Uint128) -> (r: Uint128) ensures self.0 >= o.0, r.0 == self.0 - o.0 { unimplemented!() } }
impl VInto<Uint128> for crate::math::types::token_amount::TokenAmount {
    open spec fn vinto_spec(self, r: Uint128) -> bool { r.0 == self.0 }
    #[verifier::external_body]
    fn vinto(self) -> (r: Uint128) { unimplemented!() }
}

// ---- errors ----
pub type StdResult<T> = Result<T, ContractError>;
#[verifier::external_body]
pub struct StdError {}
#[verifier::external_body]
pub struct FromUtf8Error {}

// ---- environment ----
#[derive(Copy, Clone)]
pub struct Timestamp { pub ns: u64 }
impl Timestamp {
    #[verifier::external_body]
    pub fn nanos(&self) -> (r: u64) ensures r == self.ns { unimplemented!() }
}
pub struct BlockInfo { pub height: u64, pub time: Timestamp }
pub struct ContractInfo { pub address: Addr }
pub struct Env { pub block: BlockInfo, pub contract: ContractInfo }
pub struct Coin { pub denom: String, pub amount: Uint128 }
pub struct MessageInfo { pub sender: Addr, pub funds: Vec<Coin> }
impl Clone for Coin { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for MessageInfo { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub type Binary = Vec<u8>;
pub enum Expiration { AtHeight(u64), AtTime(Timestamp), Never {} }
impl Expiration {
    pub open spec fn expired(self, b: BlockInfo) -> bool {
        match self { Expiration::AtHeight(h) => b.height >= h, Expiration::AtTime(t) => b.time.ns >= t.ns, Expiration::Never {} => false }
    }
    #[verifier::external_body]
    pub fn is_expired(&self, block: &BlockInfo) -> (r: bool) ensures r == self.expired(*block) { unimplemented!() }
}
impl Clone for Expiration { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub trait VDefault<T>: Sized { 
    spec fn vdef(self) -> T;
    fn vunwrap_or_default(self) -> (r: T) ensures r == self.vdef();
}
impl VDefault<Expiration> for Option<Expiration> {
    open spec fn vdef(self) -> Expiration { match self { Some(e) => e, None => Expiration::Never {} } }
    #[verifier::external_body]
    fn vunwrap_or_default(self) -> (r: Expiration) { unimplemented!() }
}
pub trait VUnwrapOr<T>: Sized {
    spec fn vor(self, d: T) -> T;
    fn vunwrap_or(self, d: T) -> (r: T) ensures r == self.vor(d);
}
impl<T> VUnwrapOr<T> for Option<T> {
    open spec fn vor(self, d: T) -> T { match self { Some(e) => e, None => d } }
    #[verifier::external_body]
    fn vunwrap_or(self, d: T) -> (r: T) { unimplemented!() }
}
impl<T, E> VUnwrapOr<T> for Result<T, E> {
    open spec fn vor(self, d: T) -> T { match self { Ok(e) => e, Err(_) => d } }
    #[verifier::external_body]
    fn vunwrap_or(self, d: T) -> (r: T) { unimplemented!() }
}
/// address validation: a fixed predicate on strings; a valid address is the string itself
pub uninterp spec fn addr_ok(s: Seq<u8>) -> bool;
#[verifier::external_body]
pub struct Api {}
impl Api {
    #[verifier::external_body]
    pub fn addr_validate(&self, s: &String) -> (r: StdResult<Addr>) ensures (r is Ok) == addr_ok(s@), r is Ok ==> r->Ok_0@ == s@ { unimplemented!() }
}

// ---- messages ----
pub enum Cw20ExecuteMsg {
    Transfer { recipient: String, amount: Uint128 },
    TransferFrom { owner: String, recipient: String, amount: Uint128 },
}
pub enum WasmMsg { Execute { contract_addr: String, msg: Binary, funds: Vec<Coin> } }
pub enum BankMsg { Send { to_address: String, amount: Vec<Coin> } }
pub enum CosmosMsg { Wasm(WasmMsg), Bank(BankMsg) }
impl VInto<CosmosMsg> for WasmMsg {
    open spec fn vinto_spec(self, r: CosmosMsg) -> bool { r == CosmosMsg::Wasm(self) }
    #[verifier::external_body]
    fn vinto(self) -> (r: CosmosMsg) { unimplemented!() }
}
impl VInto<CosmosMsg> for BankMsg {
    open spec fn vinto_spec(self, r: CosmosMsg) -> bool { r == CosmosMsg::Bank(self) }
    #[verifier::external_body]
    fn vinto(self) -> (r: CosmosMsg) { unimplemented!() }
}
/// serialization: an uninterpreted function of the value
pub uninterp spec fn vencode<T>(t: T) -> Seq<u8>;
#[verifier::external_body]
pub fn to_binary<T>(t: &T) -> (r: StdResult<Binary>) ensures r is Ok ==> r->Ok_0@ == vencode(*t) && vdecode::<T>(r->Ok_0@) == *t { unimplemented!() }
/// decoding inverts encoding
pub uninterp spec fn vdecode<T>(b: Seq<u8>) -> T;
#[verifier::external_body]
pub broadcast proof fn vdecode_encode<T>(t: T) ensures #[trigger] vdecode::<T>(vencode(t)) == t {}
/// what a message does to balances
pub ghost enum MV {
    Cw20Transfer { token: Seq<u8>, to: Seq<u8>, amount: int },
    Cw20TransferFrom { token: Seq<u8>, owner: Seq<u8>, to: Seq<u8>, amount: int },
    BankSend { to: Seq<u8>, denom: Seq<u8>, amount: int },
    Other,
}
pub open spec fn mv(m: CosmosMsg) -> MV {
    match m {
        CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, funds }) =>
            if funds@.len() != 0 { MV::Other } else { match vdecode::<Cw20ExecuteMsg>(msg@) {
                Cw20ExecuteMsg::Transfer { recipient, amount } => MV::Cw20Transfer { token: contract_addr@, to: recipient@, amount: amount.0 as int },
                Cw20ExecuteMsg::TransferFrom { owner, recipient, amount } => MV::Cw20TransferFrom { token: contract_addr@, owner: owner@, to: recipient@, amount: amount.0 as int },
            } },
        CosmosMsg::Bank(BankMsg::Send { to_address, amount }) =>
            if amount@.len() != 1 { MV::Other } else { MV::BankSend { to: to_address@, denom: amount@[0].denom@, amount: amount@[0].amount.0 as int } },
    }
}
pub open spec fn mvs(s: Seq<CosmosMsg>) -> Seq<MV> { s.map_values(|m: CosmosMsg| mv(m)) }
pub proof fn lemma_mvs_push(s: Seq<CosmosMsg>, m: CosmosMsg) ensures mvs(s.push(m)) == mvs(s).push(mv(m)) { assert(mvs(s.push(m)) =~= mvs(s).push(mv(m))); }
pub proof fn lemma_mvs_cat(s: Seq<CosmosMsg>, t: Seq<CosmosMsg>) ensures mvs(s + t) == mvs(s) + mvs(t) { assert(mvs(s + t) =~= mvs(s) + mvs(t)); }
/// the coins of a denomination attached to a message (the first entry; the chain sends one per denomination)
pub open spec fn fund_of(f: Seq<Coin>, denom: Seq<u8>) -> int
    decreases f.len()
{ if f.len() == 0 { 0 } else if f[0].denom@ == denom { f[0].amount.0 as int } else { fund_of(f.subrange(1, f.len() as int), denom) } }
pub proof fn lemma_fund_skip(f: Seq<Coin>, denom: Seq<u8>, i: int)
    requires 0 <= i <= f.len(), forall|j: int| 0 <= j < i ==> (#[trigger] f[j]).denom@ != denom
    ensures fund_of(f, denom) == fund_of(f.subrange(i, f.len() as int), denom)
    decreases i
{
    if i == 0 { assert(f.subrange(0, f.len() as int) =~= f); }
    else {
        let g = f.subrange(1, f.len() as int);
        assert forall|j: int| 0 <= j < i - 1 implies (#[trigger] g[j]).denom@ != denom by { assert(g[j] == f[j + 1]); }
        lemma_fund_skip(g, denom, i - 1);
        assert(g.subrange(i - 1, g.len() as int) =~= f.subrange(i, f.len() as int));
        assert(f[0].denom@ != denom);
    }
}
/// paying out: nothing, or one transfer to the recipient
pub open spec fn pay(name: Seq<u8>, token: bool, amount: int, to: Seq<u8>) -> Seq<MV> {
    if amount == 0 { Seq::empty() } else if token { seq![MV::Cw20Transfer { token: name, to, amount }] } else { seq![MV::BankSend { to, denom: name, amount }] }
}
/// charging: a cw20 is pulled from the sender, of attached coins exactly the amount is kept
pub open spec fn can_charge(name: Seq<u8>, token: bool, amount: int, funds: Seq<Coin>) -> bool { token || fund_of(funds, name) >= amount }
pub open spec fn charge(name: Seq<u8>, token: bool, amount: int, from: Seq<u8>, to: Seq<u8>, funds: Seq<Coin>) -> Seq<MV> {
    if token { if amount == 0 { Seq::empty() } else { seq![MV::Cw20TransferFrom { token: name, owner: from, to, amount }] } }
    else { pay(name, false, fund_of(funds, name) - amount, from) }
}
#[verifier::external_body]
pub struct Attribute {}
#[verifier::external_body]
pub fn vattr() -> Attribute { unimplemented!() }
#[verifier::external_body]
pub fn vset_version() -> StdResult<()> { unimplemented!() }
pub struct Response { pub messages: Vec<CosmosMsg> }
impl Response {
    #[verifier::external_body]
    pub fn new() -> (r: Response) ensures r.messages@ == Seq::<CosmosMsg>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: Response) ensures r.messages@ == Seq::<CosmosMsg>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn add_messages(self, m: Vec<CosmosMsg>) -> (r: Response) ensures r.messages@ == self.messages@ + m@ { unimplemented!() }
    #[verifier::external_body]
    pub fn add_message(self, m: CosmosMsg) -> (r: Response) ensures r.messages@ == self.messages@.push(m) { unimplemented!() }
}

// ---- storage: typed maps (cw-storage-plus), one ghost map per namespace ----
pub ghost struct SV {
    pub pools: Map<Seq<u8>, Pool>,
    pub ticks: Map<Seq<u8>, Tick>,
    pub positions: Map<Seq<u8>, Position>,
    pub plen: Map<Seq<u8>, u32>,
    pub bitmap: Map<Seq<u8>, u64>,
    pub ops: Map<(Seq<u8>, Seq<u8>), Expiration>,
    pub config: Option<Config>,
}
#[verifier::external_body]
pub struct Storage {}
impl View for Storage { type V = SV; uninterp spec fn view(&self) -> SV; }
pub struct DepsMut { pub storage: Storage, pub api: Api }
pub trait VBytes: Sized { spec fn vb(self) -> Seq<u8>; }
impl<'a> VBytes for &'a [u8] { open spec fn vb(self) -> Seq<u8> { self@ } }
impl<'a, 'b> VBytes for &'a &'b [u8] { open spec fn vb(self) -> Seq<u8> { self@ } }
impl<'a> VBytes for &'a Vec<u8> { open spec fn vb(self) -> Seq<u8> { self@ } }
impl<'a, 'b> VBytes for &'a &'b Vec<u8> { open spec fn vb(self) -> Seq<u8> { self@ } }
pub trait VVec { spec fn vview(&self) -> Seq<u8>;
    fn vto_vec(&self) -> (r: Vec<u8>) ensures r@ == self.vview(); }
impl VVec for [u8] { open spec fn vview(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vto_vec(&self) -> (r: Vec<u8>) { unimplemented!() } }
impl VVec for Vec<u8> { open spec fn vview(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vto_vec(&self) -> (r: Vec<u8>) { unimplemented!() } }
pub trait VKey {
    fn vextend<K: VBytes>(&mut self, k: K);
    fn vnest<K: VBytes>(&mut self, k: K);
}
impl VKey for Vec<u8> {
    #[verifier::external_body]
    fn vextend<K: VBytes>(&mut self, k: K) ensures final(self)@ == old(self)@ + k.vb() { unimplemented!() }
    /// one element of to_length_prefixed_nested: two big-endian length bytes, then the element (panics when longer than 65535)
    #[verifier::external_body]
    fn vnest<K: VBytes>(&mut self, k: K) ensures k.vb().len() < 0x10000, final(self)@ == old(self)@ + lp(k.vb()) { unimplemented!() }
}
/// n as k big-endian bytes
pub open spec fn be(n: int, k: nat) -> Seq<u8> decreases k { if k == 0 { Seq::<u8>::empty() } else { be(n / 256, (k - 1) as nat).push((n % 256) as u8) } }
pub open spec fn lp(s: Seq<u8>) -> Seq<u8> { be(s.len() as int, 2) + s }
pub open spec fn u32_of(i: i32) -> int { if i < 0 { i + 0x100000000 } else { i as int } }
pub trait VBe: Sized { spec fn be_spec(self) -> Seq<u8>; fn vto_be(self) -> (r: Vec<u8>) ensures r@ == self.be_spec(); }
impl VBe for u16 { open spec fn be_spec(self) -> Seq<u8> { be(self as int, 2) } #[verifier::external_body] fn vto_be(self) -> (r: Vec<u8>) { unimplemented!() } }
impl VBe for u32 { open spec fn be_spec(self) -> Seq<u8> { be(self as int, 4) } #[verifier::external_body] fn vto_be(self) -> (r: Vec<u8>) { unimplemented!() } }
impl VBe for u64 { open spec fn be_spec(self) -> Seq<u8> { be(self as int, 8) } #[verifier::external_body] fn vto_be(self) -> (r: Vec<u8>) { unimplemented!() } }
impl VBe for i32 { open spec fn be_spec(self) -> Seq<u8> { be(u32_of(self), 4) } #[verifier::external_body] fn vto_be(self) -> (r: Vec<u8>) { unimplemented!() } }
#[verifier::external_body]
pub fn vfrom_be2(a: u8, b: u8) -> (r: u16) ensures be(r as int, 2) == seq![a, b] { unimplemented!() }
#[verifier::external_body]
pub fn vfrom_be_u16(s: &[u8]) -> (r: u16) ensures s@.len() == 2, be(r as int, 2) == s@ { unimplemented!() }
#[verifier::external_body]
pub fn vfrom_be_u32(s: &[u8]) -> (r: u32) ensures s@.len() == 4, be(r as int, 4) == s@ { unimplemented!() }
#[verifier::external_body]
pub fn vfrom_be_u64(s: &[u8]) -> (r: u64) ensures s@.len() == 8, be(r as int, 8) == s@ { unimplemented!() }
pub trait VContains<T> { spec fn vcontains_spec(&self, t: T) -> bool; fn vcontains(&self, t: &T) -> (r: bool) ensures r == self.vcontains_spec(*t); }
/// Vec::contains with a structural equality
impl<T> VContains<T> for Vec<T> { open spec fn vcontains_spec(&self, t: T) -> bool { self@.contains(t) } #[verifier::external_body] fn vcontains(&self, t: &T) -> (r: bool) { unimplemented!() } }
#[verifier::external_body]
pub fn vslice<K: VBytes>(b: K, from: usize, to: usize) -> (r: &'static [u8])
    ensures from <= to <= b.vb().len(), r@ == b.vb().subrange(from as int, to as int) { unimplemented!() }
/// indexing, panicking out of range
pub trait VIdx<T> { spec fn vseq(&self) -> Seq<T>; fn vidx(&self, i: usize) -> (r: &T) ensures i < self.vseq().len(), *r == self.vseq()[i as int]; }
impl<T> VIdx<T> for [T] { open spec fn vseq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vidx(&self, i: usize) -> (r: &T) { unimplemented!() } }
impl<T> VIdx<T> for Vec<T> { open spec fn vseq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vidx(&self, i: usize) -> (r: &T) { unimplemented!() } }
#[verifier::external_body]
pub fn vlen<K: VBytes>(b: K) -> (r: usize) ensures r == b.vb().len() { unimplemented!() }
#[verifier::external_body]
pub fn vitem<T>(v: &Vec<T>, i: usize) -> (r: T) requires i < v@.len() ensures r == v@[i as int] { unimplemented!() }
pub fn vok<T>(t: T) -> (r: Result<T, ContractError>) ensures r == Ok::<T, ContractError>(t) { Ok(t) }
/// ranges used as values: the list of their items
pub open spec fn range_seq(a: int, b: int) -> Seq<u16> { Seq::new((if b > a { b - a } else { 0 }) as nat, |i: int| (a + i) as u16) }
#[verifier::external_body]
pub fn vincl(a: u16, b: u16) -> (r: Vec<u16>) ensures r@ == range_seq(a as int, b + 1) { unimplemented!() }
#[verifier::external_body]
pub fn vexcl(a: u16, b: u16) -> (r: Vec<u16>) ensures r@ == range_seq(a as int, b as int) { unimplemented!() }
pub trait VRev: Sized { type I; spec fn rv(self) -> Seq<Self::I>; fn vrev(self) -> (r: Vec<Self::I>) ensures r@ == self.rv(); }
impl<T> VRev for Vec<T> { type I = T; open spec fn rv(self) -> Seq<T> { self@.reverse() } #[verifier::external_body] fn vrev(self) -> (r: Vec<T>) { unimplemented!() } }
/// what an ascending scan of a map yields: every key after the bound once, in byte order
pub open spec fn scan_ok(dom: spec_fn(Seq<u8>) -> bool, after: Option<Vec<u8>>, ks: Seq<Seq<u8>>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < ks.len() ==> seq_lt(#[trigger] ks[i], #[trigger] ks[j])
    &&& forall|k: Seq<u8>| #[trigger] ks.contains(k) <==> dom(k) && (after is Some ==> seq_lt(after->Some_0@, k))
}
pub open spec fn has_key<V>(m: Map<Seq<u8>, V>) -> spec_fn(Seq<u8>) -> bool { |k: Seq<u8>| m.contains_key(k) }
pub open spec fn has_op(s: SV, o: Seq<u8>) -> spec_fn(Seq<u8>) -> bool { |k: Seq<u8>| s.ops.contains_key((o, k)) }
pub open spec fn raw_keys<T>(v: Seq<StdResult<(Vec<u8>, T)>>) -> Seq<Seq<u8>> { v.map_values(|x: StdResult<(Vec<u8>, T)>| x->Ok_0.0@) }
pub open spec fn bytes_of(v: Seq<Vec<u8>>) -> Seq<Seq<u8>> { v.map_values(|x: Vec<u8>| x@) }
pub struct HOpsOf { pub o: Ghost<Seq<u8>> }
impl HOps {
    #[verifier::external_body]
    pub fn prefix<K: VBytes>(&self, k: K) -> (r: HOpsOf) ensures r.o@ == k.vb() { unimplemented!() }
}
impl HOpsOf {
    #[verifier::external_body]
    pub fn vrange_raw(&self, s: &Storage, after: Option<Vec<u8>>) -> (r: Vec<StdResult<(Vec<u8>, Expiration)>>)
        ensures scan_ok(has_op(s@, self.o@), after, raw_keys(r@)), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) is Ok && r@[i]->Ok_0.1 == s@.ops[(self.o@, r@[i]->Ok_0.0@)] { unimplemented!() }
}
pub struct HConfig {}
impl HConfig {
    #[verifier::external_body]
    pub fn load(&self, s: &Storage) -> (r: StdResult<Config>) ensures (r is Ok) == (s@.config is Some), r is Ok ==> r->Ok_0 == s@.config->Some_0 { unimplemented!() }
    #[verifier::external_body]
    pub fn save(&self, s: &mut Storage, v: &Config) -> (r: StdResult<()>) ensures r is Ok ==> final(s)@ == (SV { config: Some(*v), ..old(s)@ }) { unimplemented!() }
}
pub struct HOps {}
impl HOps {
    #[verifier::external_body]
    pub fn may_load(&self, s: &Storage, k: (&[u8], &[u8])) -> (r: StdResult<Option<Expiration>>)
        ensures r is Ok ==> (r->Ok_0 is Some) == s@.ops.contains_key((k.0@, k.1@)) && (r->Ok_0 is Some ==> r->Ok_0->Some_0 == s@.ops[(k.0@, k.1@)]) { unimplemented!() }
    #[verifier::external_body]
    pub fn save(&self, s: &mut Storage, k: (&[u8], &[u8]), v: &Expiration) -> (r: StdResult<()>)
        ensures r is Ok ==> final(s)@ == (SV { ops: old(s)@.ops.insert((k.0@, k.1@), *v), ..old(s)@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&self, s: &mut Storage, k: (&[u8], &[u8]))
        ensures final(s)@ == (SV { ops: old(s)@.ops.remove((k.0@, k.1@)), ..old(s)@ }) { unimplemented!() }
}
} // verus!
macro_rules! handle { ($h:ident, $f:ident, $t:ty) => { verus! {
pub struct $h {}
impl $h {
    #[verifier::external_body]
    pub fn load<K: VBytes>(&self, s: &Storage, k: K) -> (r: StdResult<$t>)
        ensures (r is Ok) == s@.$f.contains_key(k.vb()), r is Ok ==> r->Ok_0 == s@.$f[k.vb()] { unimplemented!() }
    #[verifier::external_body]
    pub fn may_load<K: VBytes>(&self, s: &Storage, k: K) -> (r: StdResult<Option<$t>>)
        ensures r is Ok, (r->Ok_0 is Some) == s@.$f.contains_key(k.vb()) && (r->Ok_0 is Some ==> r->Ok_0->Some_0 == s@.$f[k.vb()]) { unimplemented!() }
    #[verifier::external_body]
    pub fn has<K: VBytes>(&self, s: &Storage, k: K) -> (r: bool) ensures r == s@.$f.contains_key(k.vb()) { unimplemented!() }
    #[verifier::external_body]
    pub fn save<K: VBytes>(&self, s: &mut Storage, k: K, v: &$t) -> (r: StdResult<()>)
        ensures r is Ok ==> final(s)@ == (SV { $f: old(s)@.$f.insert(k.vb(), *v), ..old(s)@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<K: VBytes>(&self, s: &mut Storage, k: K)
        ensures final(s)@ == (SV { $f: old(s)@.$f.remove(k.vb()), ..old(s)@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn vrange_raw(&self, s: &Storage, after: Option<Vec<u8>>) -> (r: Vec<StdResult<(Vec<u8>, $t)>>)
        ensures scan_ok(has_key(s@.$f), after, raw_keys(r@)), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) is Ok && r@[i]->Ok_0.1 == s@.$f[r@[i]->Ok_0.0@] { unimplemented!() }
    #[verifier::external_body]
    pub fn vkeys_raw(&self, s: &Storage, after: Option<Vec<u8>>) -> (r: Vec<Vec<u8>>)
        ensures scan_ok(has_key(s@.$f), after, bytes_of(r@)) { unimplemented!() }
}
} } }
handle!(HPools, pools, Pool);
handle!(HTicks, ticks, Tick);
handle!(HPositions, positions, Position);
handle!(HPlen, plen, u32);
handle!(HBitmap, bitmap, u64);
}
