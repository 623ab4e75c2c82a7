R='reductionml-core/src/reductions/'
out=[]
w=out.append
w('''// C21: reduction names, configuration documents and their defaults
use vstd::prelude::*;
use std::collections::BTreeMap;
verus! {
global size_of usize == 8;
//@include unwrap.vti
#[verifier::external_body] pub struct Value { x: u8 }
//@item reductionml-core/src/types.rs ModelIndex derive `PartialEq, Eq, Clone, Copy`
//@item reductionml-core/src/interactions.rs NamespaceDef
//@item reductionml-core/src/interactions.rs Interaction
pub enum Error { InvalidArgument(String), InvalidConfiguration(String), IoError, ParserError(String), InvalidJson, InvalidYaml }
pub type Result<T, E = Error> = std::result::Result<T, E>;
pub mod error { pub use super::{Error, Result}; }
#[verifier::external_body] pub struct ReductionWrapper { x: u8 }
//@item reductionml-core/src/reduction_factory.rs PascalCaseString
//@item reductionml-core/src/reduction_factory.rs JsonReductionConfig subst `serde_json::Value` `Value`

// ---- characters and texts
pub open spec fn upper(c: char) -> bool { 'A' <= c && c <= 'Z' }
pub open spec fn alnum(c: char) -> bool { upper(c) || ('a' <= c && c <= 'z') || ('0' <= c && c <= '9') }
/// an acceptable reduction name
pub open spec fn valid(s: Seq<char>) -> bool { s.len() > 0 && upper(s[0]) && forall|i: int| 0 <= i < s.len() ==> alnum(#[trigger] s[i]) }
pub trait Ch { fn c_upper(&self) -> bool; fn c_alnum(&self) -> bool; fn c_alpha(&self) -> bool; fn c_digit(&self) -> bool; fn c_lower(&self) -> bool; }
impl Ch for char {
    fn c_upper(&self) -> (r: bool) ensures r == upper(*self) { 'A' <= *self && *self <= 'Z' }
    fn c_lower(&self) -> (r: bool) ensures r == ('a' <= *self && *self <= 'z') { 'a' <= *self && *self <= 'z' }
    fn c_digit(&self) -> (r: bool) ensures r == ('0' <= *self && *self <= '9') { '0' <= *self && *self <= '9' }
    fn c_alpha(&self) -> (r: bool) ensures r == (alnum(*self) && !('0' <= *self && *self <= '9')) { ('A' <= *self && *self <= 'Z') || ('a' <= *self && *self <= 'z') }
    fn c_alnum(&self) -> (r: bool) ensures r == alnum(*self) { ('A' <= *self && *self <= 'Z') || ('a' <= *self && *self <= 'z') || ('0' <= *self && *self <= '9') }
}
pub trait Txt { spec fn tv(&self) -> Seq<char>; fn t_empty(&self) -> bool; fn t_chars(&self) -> Vec<char>; fn t_owned(&self) -> String; }
impl Txt for String {
    open spec fn tv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn t_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { self.is_empty() }
    #[verifier::external_body] fn t_chars(&self) -> (r: Vec<char>) ensures r@ == self@ { self.chars().collect() }
    #[verifier::external_body] fn t_owned(&self) -> (r: String) ensures r@ == self@ { self.to_owned() }
}
impl Txt for &str {
    open spec fn tv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn t_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { self.is_empty() }
    #[verifier::external_body] fn t_chars(&self) -> (r: Vec<char>) ensures r@ == self@ { self.chars().collect() }
    #[verifier::external_body] fn t_owned(&self) -> (r: String) ensures r@ == self@ { (*self).to_owned() }
}
pub fn first(v: &Vec<char>) -> (r: Option<char>) ensures r == (if v@.len() > 0 { Some(v@[0]) } else { None }) { if v.len() > 0 { Some(v[0]) } else { None } }
//@ruleset text
//@rule subst? `std::result::Result<Self, Self::Error>` `Result<Self>`
//@rule tmpl is_empty `($0).t_empty()`
//@rule tmpl to_owned `($0).t_owned()`
//@rule tmpl is_ascii_uppercase `($0).c_upper()`
//@rule tmpl is_ascii_lowercase `($0).c_lower()`
//@rule tmpl is_ascii_alphanumeric `($0).c_alnum()`
//@rule tmpl is_ascii_alphabetic `($0).c_alpha()`
//@rule tmpl is_ascii_digit `($0).c_digit()`
//@rule tmpl chars.next `first(&($0).t_chars())`
//@rule tmpl chars.any `{ let __v = ($0).t_chars(); let mut __i: usize = 0; let mut __r = false; @before while __i < __v.len() && !__r @inv { @start let $p1 = __v[__i]; __r = $b1; __i = __i + 1; @end } @after __r }`
//@rule tmpl chars.all `{ let __v = ($0).t_chars(); let mut __i: usize = 0; let mut __r = true; @before while __i < __v.len() && __r @inv { @start let $p1 = __v[__i]; __r = $b1; __i = __i + 1; @end } @after __r }`
//@rule tmpl unwrap `unw($0)`
//@endruleset
pub fn text<T>(x: T) -> (r: String) { String::new() }
impl PascalCaseString {''')
for (k,n) in (("TryFrom<String>","try_from_string"),("TryFrom<&str>","try_from_str")):
    w(f'''//@fn reductionml-core/src/reduction_factory.rs `{k} for PascalCaseString::try_from`
//@name {n}
//@vis pub
//@rules text
//@ret r
//@spec
ensures r is Ok <==> valid(value@), r matches Ok(p) ==> p.0@ == value@, r matches Err(e) ==> e is InvalidArgument
//@start
    let ghost t = value@;
//@loop 0
invariant __v@ == t, 0 <= __i <= t.len(), __r == (exists|k: int| 0 <= k < __i && !alnum(#[trigger] t[k])),
decreases __v@.len() - __i
//@endfn''')
w('''//@fn reductionml-core/src/reduction_factory.rs `AsRef<str> for PascalCaseString::as_ref`
//@name name_ref
//@vis pub
//@rule subst `&self.0` `self.0.as_str()`
//@ret r
//@spec
ensures r@ == self.0@
//@endfn
}
//@fn reductionml-core/src/reduction_factory.rs `From<PascalCaseString> for String::from`
//@name string_of_name
//@sig
pub fn string_of_name(value: PascalCaseString) -> (r: String)
//@spec
ensures r@ == value.0@
//@endfn
pub uninterp spec fn encode<T>(x: T) -> Value;
pub uninterp spec fn decode<T>(v: Value) -> Option<T>;
/// a configuration survives being written as a document and read back (serde derives)
pub axiom fn serde_roundtrip<T>(x: T) ensures decode::<T>(encode::<T>(x)) == Some(x);
#[verifier::external_body] pub fn json_of<T>(x: T) -> (r: Value) ensures r == encode(x) { unimplemented!() }
#[verifier::external_body] pub fn to_value<T>(x: T) -> (r: Result<Value>) ensures r == Ok::<Value, Error>(encode(x)) { unimplemented!() }
#[verifier::external_body] pub fn from_value<T>(v: Value) -> (r: Result<T>) ensures match decode::<T>(v) { Some(x) => r == Ok::<T, Error>(x), None => r is Err } { unimplemented!() }
#[verifier::external_body] pub fn same_doc(v: &Value) -> (r: Value) ensures r == *v { unimplemented!() }
impl JsonReductionConfig {
//@fn reductionml-core/src/reduction_factory.rs JsonReductionConfig::new
//@rule subst? `serde_json::Value` `Value`
//@ret r
//@spec
ensures r == (JsonReductionConfig { typename, config: Some(config) })
//@endfn
//@fn reductionml-core/src/reduction_factory.rs JsonReductionConfig::typename
//@rules text
//@rule tmpl as_ref `($0).name_ref()`
//@ret r
//@spec
ensures r@ == self.typename.0@
//@endfn
//@fn reductionml-core/src/reduction_factory.rs JsonReductionConfig::json_value
//@rule subst? `serde_json::Value` `Value`
//@ret r
//@spec
ensures *r == self.config
//@endfn
}
/// what serde fills in for an absent field marked `default`
pub trait Dflt: Sized { spec fn d() -> Self; fn dflt() -> (r: Self) ensures r == Self::d(); }
impl Dflt for f32 { open spec fn d() -> f32 { 0.0f32 } fn dflt() -> f32 { 0.0f32 } }
impl Dflt for bool { open spec fn d() -> bool { false } fn dflt() -> bool { false } }
impl Dflt for u8 { open spec fn d() -> u8 { 0 } fn dflt() -> u8 { 0 } }
impl Dflt for u32 { open spec fn d() -> u32 { 0 } fn dflt() -> u32 { 0 } }
impl Dflt for usize { open spec fn d() -> usize { 0 } fn dflt() -> usize { 0 } }
pub fn dflt<T: Dflt>() -> (r: T) ensures r == T::d() { T::dflt() }

/// any reduction's configuration
pub enum Cfg { Coin(CoinRegressorConfig), Binary(BinaryReductionConfig), CbAdf(CBAdfConfig), Debug(DebugConfig), Greedy(CBExploreAdfGreedyConfig), Softmax(CBExploreAdfSoftmaxConfig), SquareCb(CBExploreAdfSquareCBConfig), Elementwise(ElementwiseInteractionConfig) }
pub trait ReductionConfig { spec fn cfg(&self) -> Cfg; fn typename(&self) -> (r: PascalCaseString) ensures r.0@ == name_of(self.cfg()); }
/// the name under which a configuration's reduction is known
pub open spec fn name_of(c: Cfg) -> Seq<char> { match c { Cfg::Coin(_) => "Coin"@, Cfg::Binary(_) => "Binary"@, Cfg::CbAdf(_) => "CbAdf"@, Cfg::Debug(_) => "Debug"@, Cfg::Greedy(_) => "CbExploreAdfGreedy"@, Cfg::Softmax(_) => "CbExploreAdfSoftmax"@, Cfg::SquareCb(_) => "CbExploreAdfSquareCb"@, Cfg::Elementwise(_) => "ElementwiseInteraction"@ } }
/// what building a reduction does (C10)
pub uninterp spec fn made(name: Seq<char>, c: Cfg, g: GlobalConfig, n: ModelIndex) -> Result<ReductionWrapper>;
pub trait ReductionFactory {
    spec fn name(&self) -> Seq<char>;
    /// the configuration a document stands for
    spec fn reads(&self, v: Value) -> Option<Cfg>;
    spec fn is_default(&self, c: Cfg) -> bool;
    fn typename(&self) -> (r: PascalCaseString) ensures r.0@ == self.name();
    fn parse_config(&self, value: &Value) -> (r: Result<Box<dyn ReductionConfig>>) ensures match self.reads(*value) { Some(c) => r matches Ok(b) && b.cfg() == c, None => r is Err };
    fn get_config_default(&self) -> (r: Value) ensures exists|c: Cfg| #[trigger] self.is_default(c) && self.reads(r) == Some(c);
    fn create(&self, config: &dyn ReductionConfig, global_config: &GlobalConfig, num_models_above: ModelIndex) -> (r: Result<ReductionWrapper>)
        ensures r == made(self.name(), config.cfg(), *global_config, num_models_above);
}

// ---- documented defaults
pub mod global {
use super::*;
//@item reductionml-core/src/global_config.rs GlobalConfig
//@fn reductionml-core/src/global_config.rs default_num_bits
//@vis pub
//@ret r
//@spec
ensures r == 18
//@endfn
//@fn reductionml-core/src/global_config.rs default_true
//@vis pub
//@ret r
//@spec
ensures r
//@endfn
fn dflt_vec() -> (r: Vec<Interaction>) ensures r@.len() == 0 { Vec::new() }
//@serde global_serde reductionml-core/src/global_config.rs GlobalConfig
impl GlobalConfig {
//@fn global_serde GlobalConfig::default
//@rule call `dflt::<Vec<Interaction>>` dflt_vec
//@rule subst? `dflt::<Vec<Interaction>>()` `dflt_vec()`
//@ret r
//@spec
ensures r.num_bits == 18, r.hash_seed == 0, r.constant_feature_enabled, r.interactions@.len() == 0
//@endfn
//@fn global_serde GlobalConfig::denies_unknown_fields
//@ret r
//@spec
ensures r
//@endfn
//@fn global_serde GlobalConfig::every_field_optional
//@ret r
//@spec
ensures r
//@endfn
//@fn global_serde GlobalConfig::camel_case
//@ret r
//@spec
ensures r
//@endfn
}
}
pub use global::GlobalConfig;
''')
COIN='exists|c: CoinRegressorConfig| #[trigger] super::coin::defaults(c) && r == encode(c)'
def reg(name, body): return body
mods=[
 ('coin','coin','CoinRegressorConfig','CoinRegressorFactory','Coin','Coin',
  '''//@item reductionml-core/src/loss_function.rs LossFunction derive `Clone, Copy`
//@item reductionml-core/src/loss_function/squared_loss.rs SquaredLoss derive `Clone, Copy`
//@item reductionml-core/src/loss_function/logistic_loss.rs LogisticLoss derive `Clone, Copy`
//@item reductionml-core/src/reductions/coin.rs LinkFunction
fn squared_default() -> (r: SquaredLoss) { SquaredLoss {} }
fn into_loss(x: SquaredLoss) -> (r: LossFunction) ensures r == LossFunction::Squared(x) { LossFunction::Squared(x) }
''',
  [('default_alpha','r == 4.0f32'),('default_beta','r == 1.0f32'),('default_loss_function','r is Squared'),('default_link_function','r is Identity')],
  'c.alpha == 4.0f32 && c.beta == 1.0f32 && c.l1_lambda == 0.0f32 && c.l2_lambda == 0.0f32 && c.loss_function is Squared && c.link_function is Identity'),
 ('binary','binary','BinaryReductionConfig','BinaryReductionFactory','Binary','Binary','',
  [('default_regressor','is_coin(r)')],'is_coin(c.regressor)'),
 ('cb_adf','cb_adf','CBAdfConfig','CBAdfReductionFactory','CbAdf','CbAdf','''//@item reductionml-core/src/reductions/cb_adf.rs CBType
''',
  [('default_cb_type','r is Mtr'),('default_regressor','is_coin(r)')],'c.cb_type is Mtr && is_coin(c.regressor)'),
 ('debug','debug','DebugConfig','DebugReductionFactory','Debug','Debug','',
  [('default_cb_type','r@.len() == 0'),('default_false','!r'),('default_indent','r == 0'),('default_next','r.config is Some')],
  'c.id@.len() == 0 && !c.prediction && !c.label && !c.features && c.indent == 0 && c.next.config is Some'),
 ('greedy','cb_explore_adf_greedy','CBExploreAdfGreedyConfig','CBExploreAdfGreedyReductionFactory','CbExploreAdfGreedy','Greedy','',
  [('default_epsilon','r == 0.05f32'),('default_cb_adf','is_cb_adf(r)')],'c.epsilon == 0.05f32 && is_cb_adf(c.cb_adf)'),
 ('softmax','cb_explore_adf_softmax','CBExploreAdfSoftmaxConfig','CBExploreAdfSoftmaxReductionFactory','CbExploreAdfSoftmax','Softmax','',
  [('default_uniform_epsilon','r == 0.0f32'),('default_lambda','r == 1.0f32'),('default_cb_adf','is_cb_adf(r)')],'c.uniform_epsilon == 0.0f32 && c.lambda == 1.0f32 && is_cb_adf(c.cb_adf)'),
 ('squarecb','cb_explore_adf_squarecb','CBExploreAdfSquareCBConfig','CBExploreAdfSquareCBReductionFactory','CbExploreAdfSquareCb','SquareCb','',
  [('default_uniform_epsilon','r == 0.0f32'),('default_gamma_scale','r == 10.0f32'),('default_gamma_exponent','r == 0.5f32'),('default_cb_adf','is_cb_adf(r)')],'c.uniform_epsilon == 0.0f32 && c.gamma_scale == 10.0f32 && c.gamma_exponent == 0.5f32 && is_cb_adf(c.cb_adf)'),
 ('elementwise','elementwise_interaction','ElementwiseInteractionConfig','ElementwiseInteractionFactory','ElementwiseInteraction','Elementwise','',
  [('default_regressor','is_coin(r)'),('default_ns','r is Default')],'is_coin(c.regressor) && c.one is Default && c.two is Default && !c.keep_original_features'),
]
for (m,f,cfg,fac,name,var,pre,fns,dfl) in mods:
    w(f'''pub mod {m} {{
use super::*;
//@item {R}{f}.rs {cfg}
//@item {R}{f}.rs {fac}
{pre}pub open spec fn defaults(c: {cfg}) -> bool {{ {dfl} }}''')
    for (fn,post) in fns:
        w(f'''//@fn {R}{f}.rs {fn}
//@vis pub
//@rules text
//@rule tmpl try_into `PascalCaseString::try_from_str($0)`
//@rule mac json json_of($0)
//@rule call `SquaredLoss::default` squared_default
//@rule tmpl into `into_loss($0)`
//@ret r
//@spec
ensures {post}
//@start
    proof {{ reveal_strlit("Coin"); reveal_strlit("CbAdf"); reveal_strlit("Unknown"); reveal_strlit(""); }}
//@endfn''')
    w(f'''//@serde {m}_serde {R}{f}.rs {cfg}
impl {cfg} {{
//@fn {m}_serde {cfg}::default
//@ret r
//@spec
ensures defaults(r)
//@endfn
//@fn {m}_serde {cfg}::denies_unknown_fields
//@ret r
//@spec
ensures r
//@endfn
//@fn {m}_serde {cfg}::every_field_optional
//@ret r
//@spec
ensures r
//@endfn
//@fn {m}_serde {cfg}::camel_case
//@ret r
//@spec
ensures r
//@endfn
}}
impl ReductionConfig for {cfg} {{
    open spec fn cfg(&self) -> Cfg {{ Cfg::{var}(*self) }}
//@fn {R}{f}.rs `ReductionConfig for {cfg}::typename`
//@rule tmpl try_into.unwrap `unw(PascalCaseString::try_from_str($0))`
//@start
    proof {{ reveal_strlit("{name}"); }}
//@endfn
}}
//@macroin {m}_fac reductionml-core/src/reduction_factory.rs impl_default_factory_functions {R}{f}.rs `ReductionFactory for {fac}`
impl ReductionFactory for {fac} {{
    open spec fn name(&self) -> Seq<char> {{ "{name}"@ }}
    open spec fn reads(&self, v: Value) -> Option<Cfg> {{ match decode::<{cfg}>(v) {{ Some(c) => Some(Cfg::{var}(c)), None => None }} }}
    open spec fn is_default(&self, c: Cfg) -> bool {{ c matches Cfg::{var}(x) && defaults(x) }}
    #[verifier::external_body] fn create(&self, config: &dyn ReductionConfig, global_config: &GlobalConfig, num_models_above: ModelIndex) -> (r: Result<ReductionWrapper>) {{ unimplemented!() }}
//@fn {m}_fac `ReductionFactory for {fac}::typename`
//@rule tmpl try_into.unwrap `unw(PascalCaseString::try_from_str($0))`
//@start
    proof {{ reveal_strlit("{name}"); }}
//@endfn
//@fn {m}_fac `ReductionFactory for {fac}::parse_config`
//@rule subst? `serde_json::Value` `Value`
//@rule tmpl clone `same_doc($0)`
//@rule call `serde_json::from_value` from_value
//@ret r
//@endfn
//@fn {m}_fac `ReductionFactory for {fac}::get_config_default`
//@rule subst? `serde_json::Value` `Value`
//@rule call `serde_json::to_value` to_value
//@rule tmpl unwrap `unw($0)`
//@ret r
//@end
    proof {{ let c = choose|c: {cfg}| #[trigger] defaults(c) && r == encode(c); serde_roundtrip(c); assert(self.is_default(Cfg::{var}(c))); assert(self.reads(r) == Some(Cfg::{var}(c))); }}
//@endfn
}}
}}
pub use {m}::{cfg};''')
w('''/// a document for the base regressor with its defaults
pub open spec fn is_coin(j: JsonReductionConfig) -> bool { j.typename.0@ == "Coin"@ && exists|c: CoinRegressorConfig| #[trigger] coin::defaults(c) && j.config == Some(encode(c)) }
pub open spec fn is_cb_adf(j: JsonReductionConfig) -> bool { j.typename.0@ == "CbAdf"@ && exists|c: CBAdfConfig| #[trigger] cb_adf::defaults(c) && j.config == Some(encode(c)) }

// ---- registry and dispatch
pub type Fac = Box<dyn ReductionFactory>;
//@item reductionml-core/src/reduction_registry.rs ReductionRegistry
pub open spec fn same_fac(f: &dyn ReductionFactory, b: Fac) -> bool { f.name() == b.name() && (forall|v: Value| f.reads(v) == b.reads(v)) && (forall|c: Cfg| f.is_default(c) == b.is_default(c)) }
pub uninterp spec fn facs(m: BTreeMap<String, Fac>) -> Map<Seq<char>, Fac>;
#[verifier::external_body] pub fn fac_insert(m: &mut BTreeMap<String, Fac>, k: String, v: Fac) -> (r: Option<Fac>) ensures facs(*final(m)) == facs(*old(m)).insert(k@, v) { m.insert(k, v) }
#[verifier::external_body] pub fn fac_get<'a>(m: &'a BTreeMap<String, Fac>, k: &str) -> (r: Option<&'a Fac>) ensures r matches Some(f) ==> facs(*m).dom().contains(k@) && facs(*m)[k@] == *f, r is None ==> !facs(*m).dom().contains(k@) { m.get(k) }
impl ReductionRegistry {
    pub open spec fn wf(&self) -> bool { forall|k: Seq<char>| #[trigger] facs(self.registry).dom().contains(k) ==> facs(self.registry)[k].name() == k }
//@fn reductionml-core/src/reduction_registry.rs ReductionRegistry::register
//@rules text
//@rule tmpl as_ref `($0).name_ref()`
//@rule tmpl insert `fac_insert(&mut $0, $1, $2)`
//@spec
requires old(self).wf()
ensures final(self).wf(), facs(final(self).registry) == facs(old(self).registry).insert(factory.name(), factory)
//@endfn
//@fn reductionml-core/src/reduction_registry.rs ReductionRegistry::get
//@rule tmpl get `fac_get(&$0, $1)`
//@rule tmpl map `(match $0 { Some($p1) => Some($b1), None => None })`
//@rule tmpl as_ref `&**($0)`
//@ret r
//@spec
ensures match r { Some(f) => facs(self.registry).dom().contains(typename@) && same_fac(f, facs(self.registry)[typename@]), None => !facs(self.registry).dom().contains(typename@) }
//@endfn
}

/// the registry the program runs with (lazily filled; every lookup sees the same one)
pub uninterp spec fn registered() -> Map<Seq<char>, Fac>;
#[verifier::external_body] pub fn registry() -> (r: &'static ReductionRegistry) ensures facs(r.registry) == registered(), r.wf() { unimplemented!() }
//@ruleset dispatch
//@rule tmpl lock `registry()`
//@rule tmpl as_ref `($0).name_ref()`
//@rule mac format text(())
//@rule call `crate::error::Error::InvalidArgument` `Error::InvalidArgument`
//@endruleset
/// the configuration a document for a named reduction stands for
pub open spec fn is_parsed(name: Seq<char>, config: Option<Value>, c: Option<Cfg>) -> bool {
    if !registered().dom().contains(name) { c is None }
    else { let f = registered()[name]; match config { Some(v) => c == f.reads(v), None => c matches Some(d) && f.is_default(d) } }
}
//@fn reductionml-core/src/reduction_factory.rs parse_config
//@rules dispatch
//@ret r
//@spec
ensures r matches Ok(b) ==> is_parsed(config.typename.0@, config.config, Some(b.cfg())), r is Err ==> is_parsed(config.typename.0@, config.config, None)
//@endfn
//@fn reductionml-core/src/reduction_factory.rs create_reduction
//@rules dispatch
//@ret r
//@spec
ensures !registered().dom().contains(name_of(config.cfg())) ==> r is Err, registered().dom().contains(name_of(config.cfg())) ==> r == made(name_of(config.cfg()), config.cfg(), *global_config, num_models_above)
//@endfn
} // verus!
''')
open('contracts/names.vt','w').write('\n'.join(out))
