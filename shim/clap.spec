# Shim: clap's matches, the logger and the end of the process as src/main.rs uses them (assumed contracts).
@include into.spec
@typemap clap::parser::ValuesRef<'_,String> => VxIter<&String>
@typemap ValuesRef<'_,String> => VxIter<&String>
@typemap clap::ArgMatches => VxMatches
@typemap ArgMatches => VxMatches
@path String::as_str => vx_string_as_str
@path ConfigBuilder::new => vx_logcfg
@path TermLogger::init => vx_log_init
@path num_cpus::get => vx_num_cpus
@path std::process::exit => vx_exit
@path process::exit => vx_exit
@path Regex::new => vx_re
@path Command::new => vx_command
@path clap::Command::new => vx_command
@path Command => VxCommand
@path clap::Command => VxCommand
@path Arg::new => vx_arg
@path clap::Arg::new => vx_arg
@path clap::ArgAction::* => ArgAction
@method version author about arg help required num_args short long default_value value_name
@method get_one get_many get_flag get_matches is_match set_time_offset_to_local build
@raw
pub enum LevelFilter { Off, Error, Warn, Info, Debug, Trace }
pub enum TerminalMode { Stdout, Stderr, Mixed }
pub enum ColorChoice { Always, AlwaysAnsi, Auto, Never }
pub struct VxLogCfg { pub p: u8 }
pub fn vx_logcfg() -> (r: VxLogCfg) { VxLogCfg { p: 0 } }
impl VxLogCfg {
    #[verifier::external_body] pub fn vx_set_time_offset_to_local(&mut self) -> (r: VxResult<()>) { unimplemented!() }
    #[verifier::external_body] pub fn vx_build(&mut self) -> (r: VxLogCfg) { unimplemented!() }
}
#[verifier::external_body]
/// (the standard output is for the symbols)
pub fn vx_log_init(l: LevelFilter, c: VxLogCfg, m: TerminalMode, k: ColorChoice) -> (r: VxResult<()>) requires m is Stderr || l is Off { unimplemented!() }
#[verifier::external_body]
pub fn vx_num_cpus() -> (r: usize) ensures r == cpus() { unimplemented!() }
pub uninterp spec fn cpus() -> usize;
/// the process ends there; 0 means success, and anything else that something asked for cannot be done
#[verifier::external_body]
pub fn vx_exit(code: i32) requires code != 0 ==> may_give_up(), code == 0 ==> all_done() ensures false { unimplemented!() }
/// the command line as clap reads it
#[verifier::external_body]
pub struct VxMatches { _p: u8 }
pub uninterp spec fn cmdline() -> VxMatches;
/// the declared options
pub enum ArgAction { Set, Append, SetTrue, SetFalse, Count, Help, HelpShort, HelpLong, Version }
pub struct ArgV { pub name: Seq<char>, pub short: Option<char>, pub long: Option<Seq<char>>, pub required: bool, pub many: bool, pub action: ArgAction, pub default: Option<Seq<char>> }
#[verifier::external_body]
pub struct VxArgB { _p: u8 }
#[verifier::external_body]
pub fn vx_arg(n: &str) -> (r: VxArgB) ensures r.v() == (ArgV { name: n@, short: None, long: None, required: false, many: false, action: ArgAction::Set, default: None }) { unimplemented!() }
impl VxArgB {
    pub uninterp spec fn v(&self) -> ArgV;
    #[verifier::external_body] pub fn vx_help(self, t: &str) -> (r: Self) ensures r.v() == self.v() { unimplemented!() }
    #[verifier::external_body] pub fn vx_value_name(self, t: &str) -> (r: Self) ensures r.v() == self.v() { unimplemented!() }
    #[verifier::external_body] pub fn vx_required(self, b: bool) -> (r: Self) ensures r.v() == (ArgV { required: b, ..self.v() }) { unimplemented!() }
    #[verifier::external_body] pub fn vx_num_args(self, n: VxAtLeastOne) -> (r: Self) ensures r.v() == (ArgV { many: true, ..self.v() }) { unimplemented!() }
    #[verifier::external_body] pub fn vx_short(self, c: char) -> (r: Self) ensures r.v() == (ArgV { short: Some(c), ..self.v() }) { unimplemented!() }
    #[verifier::external_body] pub fn vx_long(self, t: &str) -> (r: Self) ensures r.v() == (ArgV { long: Some(t@), ..self.v() }) { unimplemented!() }
    #[verifier::external_body] pub fn vx_default_value(self, t: &str) -> (r: Self) ensures r.v() == (ArgV { default: Some(t@), ..self.v() }) { unimplemented!() }
    #[verifier::external_body] pub fn action(self, a: ArgAction) -> (r: Self) ensures r.v() == (ArgV { action: a, ..self.v() }) { unimplemented!() }
}
/// 1..
pub struct VxAtLeastOne { pub p: u8 }
pub fn vx_at_least_one() -> (r: VxAtLeastOne) { VxAtLeastOne { p: 0 } }
#[verifier::external_body]
pub struct VxCommand { _p: u8 }
#[verifier::external_body]
pub fn vx_command(n: &str) -> (r: VxCommand) ensures r.args() == Set::<ArgV>::empty() { unimplemented!() }
impl VxCommand {
    pub uninterp spec fn args(&self) -> Set<ArgV>;
    #[verifier::external_body] pub fn vx_version(self, t: &str) -> (r: Self) ensures r.args() == self.args() { unimplemented!() }
    #[verifier::external_body] pub fn vx_author(self, t: &str) -> (r: Self) ensures r.args() == self.args() { unimplemented!() }
    #[verifier::external_body] pub fn vx_about(self, t: &str) -> (r: Self) ensures r.args() == self.args() { unimplemented!() }
    #[verifier::external_body] pub fn vx_arg(self, a: VxArgB) -> (r: Self) ensures r.args() == self.args().insert(a.v()) { unimplemented!() }
    /// clap reads the arguments of the process as the declared options say; it ends the process on errors, --help and --version
    #[verifier::external_body] pub fn vx_get_matches(self) -> (r: VxMatches) requires interface(self.args()) ensures r == cmdline(), may_print() == cmdline().flag("list_arch"@) { unimplemented!() }
}
impl VxMatches {
    /// the value of an option (or its default)
    pub uninterp spec fn text(&self, n: Seq<char>) -> Option<Seq<char>>;
    /// the values of an option that can be repeated, in order
    pub uninterp spec fn list(&self, n: Seq<char>) -> Option<Seq<Seq<char>>>;
    pub uninterp spec fn flag(&self, n: Seq<char>) -> bool;
    #[verifier::external_body] pub fn vx_get_one<T: VxArg>(&self, n: &str) -> (r: Option<&T>)
        ensures match r { Some(x) => x.is_one(self, n@), None => T::has_none(self, n@) } { unimplemented!() }
    #[verifier::external_body] pub fn vx_get_flag(&self, n: &str) -> (r: bool) ensures r == self.flag(n@) { unimplemented!() }
    #[verifier::external_body] pub fn vx_get_many<T: VxArg>(&self, n: &str) -> (r: Option<VxIter<&T>>)
        ensures match r { Some(x) => x.pos() == 0 && self.list(n@) == Some(T::texts(x.seq())), None => self.list(n@) is None } { unimplemented!() }
}
pub trait VxArg { spec fn is_one(&self, m: &VxMatches, n: Seq<char>) -> bool; spec fn has_none(m: &VxMatches, n: Seq<char>) -> bool; spec fn texts(s: Seq<&Self>) -> Seq<Seq<char>>; }
impl VxArg for String {
    open spec fn is_one(&self, m: &VxMatches, n: Seq<char>) -> bool { m.text(n) == Some(self@) }
    open spec fn has_none(m: &VxMatches, n: Seq<char>) -> bool { m.text(n) is None }
    open spec fn texts(s: Seq<&String>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }
}
impl VxArg for bool {
    open spec fn is_one(&self, m: &VxMatches, n: Seq<char>) -> bool { m.flag(n) == *self }
    open spec fn has_none(m: &VxMatches, n: Seq<char>) -> bool { false }
    open spec fn texts(s: Seq<&bool>) -> Seq<Seq<char>> { Seq::empty() }
}
#[verifier::external_body]
pub fn vx_string_as_str(s: &String) -> (r: &str) ensures r@ == s@ { unimplemented!() }
/// regular expressions
#[verifier::external_body]
pub struct VxRe { _p: u8 }
pub uninterp spec fn re_finds(re: Seq<char>, s: Seq<char>) -> bool;
impl VxRe {
    pub uninterp spec fn re(&self) -> Seq<char>;
    #[verifier::external_body] pub fn vx_is_match(&self, s: &str) -> (r: bool) ensures r == re_finds(self.re(), s@) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_re(s: &str) -> (r: VxResult<VxRe>) ensures r matches Ok(x) ==> x.re() == s@ { unimplemented!() }
/// conversions of a text
impl<'a> VxInto<VxPath> for &'a str {
    open spec fn into_is(&self, t: VxPath) -> bool { t.text() == self@ && t.utf8() }
    #[verifier::external_body] fn vx_into(self) -> (r: VxPath) { unimplemented!() }
}
