# Contracts of src/main.rs and src/action.rs (C25)
@file src/main.rs
@file src/action.rs
@file src/dumper.rs
@prints
@enum FileOutput
@enum Output
@struct Config
@enum Action
@path dumper::single_file => vx_dump_one
@path dumper::several_files => vx_dump_all
@path print_macho_architectures => vx_list_arch
@path utils::get_filename => vx_filename
@path get_filename => vx_filename
@path dumper::* =>
@raw
pub open spec fn ov(x: Option<&str>) -> Option<Seq<char>> { match x { Some(s) => Some(s@), None => None } }
pub open spec fn texts(v: Seq<&str>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
pub open spec fn otexts(v: Option<Vec<&str>>) -> Option<Seq<Seq<char>>> { match v { Some(x) => Some(texts(x@)), None => None } }
/// C25: a file name, or - for the standard output
pub open spec fn out_of(s: Seq<char>, f: FileOutput) -> bool { if s == "-"@ { f is Stdout } else { f matches FileOutput::Path(p) && p.text() == s && p.utf8() } }
impl<'a> VxInto<FileOutput> for &'a str {
    open spec fn into_is(&self, t: FileOutput) -> bool { out_of(self@, t) }
    #[verifier::external_body] fn vx_into(self) -> (r: FileOutput) { unimplemented!() }
}
/// C25: where the dump goes
pub open spec fn output_for(o: Output, out: Option<Seq<char>>, store: Option<Seq<char>>) -> bool {
    match (out, store) {
        (Some(f), Some(d)) => o matches Output::FileAndStore { file, store_directory } && out_of(f, file) && store_directory.text() == d,
        (Some(f), None) => o matches Output::File(x) && out_of(f, x),
        (None, Some(d)) => o matches Output::Store(x) && x.text() == d,
        (None, None) => o matches Output::File(FileOutput::Stdout),
    }
}
/// C25: as many jobs as asked for, by default one per cpu
pub open spec fn jobs_for(s: Option<Seq<char>>) -> usize { match s { Some(t) => match parsed_usize(t) { Some(n) => n, None => cpus() }, None => cpus() } }
/// C25: every option reaches the dump
pub open spec fn config_for(c: Config, m: VxMatches) -> bool {
    &&& output_for(c.output, m.text("output"@), m.text("store"@))
    &&& ov(c.symbol_server) == m.text("symbol_server"@)
    &&& ov(c.debug_id) == m.text("debug_id"@)
    &&& ov(c.code_id) == m.text("code_id"@)
    &&& Some(c.arch@) == m.text("arch"@)
    &&& c.num_jobs == jobs_for(m.text("num_jobs"@))
    &&& c.check_cfi == m.flag("check_cfi"@)
    &&& c.emit_inlines == m.flag("inlines"@)
    &&& otexts(c.mapping_var) == m.list("mapping_var"@)
    &&& otexts(c.mapping_src) == m.list("mapping_src"@)
    &&& otexts(c.mapping_dest) == m.list("mapping_dest"@)
    &&& ov(c.mapping_file) == m.text("mapping_file"@)
}
/// C25: what the command line asks for
pub open spec fn asked(a: Action, f: Seq<Seq<char>>) -> bool {
    cmdline().list("filenames"@) == Some(f) && match a {
        Action::ListArch => cmdline().flag("list_arch"@) && may_print(),
        Action::Dump(c) => !cmdline().flag("list_arch"@) && config_for(c, cmdline()),
    }
}
/// C25: the options a user can give, as documented
pub open spec fn interface(a: Set<ArgV>) -> bool {
    &&& a.contains(ArgV { name: "filenames"@, short: None, long: None, required: true, many: true, action: ArgAction::Set, default: None })
    &&& a.contains(ArgV { name: "output"@, short: Some('o'), long: Some("output"@), required: false, many: false, action: ArgAction::Set, default: None })
    &&& a.contains(ArgV { name: "store"@, short: Some('s'), long: Some("store"@), required: false, many: false, action: ArgAction::Set, default: None })
    &&& a.contains(ArgV { name: "debug_id"@, short: None, long: Some("debug-id"@), required: false, many: false, action: ArgAction::Set, default: None })
    &&& a.contains(ArgV { name: "code_id"@, short: None, long: Some("code-id"@), required: false, many: false, action: ArgAction::Set, default: None })
    &&& a.contains(ArgV { name: "symbol_server"@, short: None, long: Some("symbol-server"@), required: false, many: false, action: ArgAction::Set, default: None })
    &&& a.contains(ArgV { name: "check_cfi"@, short: None, long: Some("check-cfi"@), required: false, many: false, action: ArgAction::SetTrue, default: None })
    &&& a.contains(ArgV { name: "verbose"@, short: None, long: Some("verbose"@), required: false, many: false, action: ArgAction::Set, default: Some("error"@) })
    &&& a.contains(ArgV { name: "arch"@, short: Some('a'), long: Some("arch"@), required: false, many: false, action: ArgAction::Set, default: Some(compile_arch()) })
    &&& a.contains(ArgV { name: "type"@, short: Some('t'), long: Some("type"@), required: false, many: false, action: ArgAction::Set, default: Some(""@) })
    &&& a.contains(ArgV { name: "list_arch"@, short: None, long: Some("list-arch"@), required: false, many: false, action: ArgAction::SetTrue, default: None })
    &&& a.contains(ArgV { name: "num_jobs"@, short: Some('j'), long: None, required: false, many: false, action: ArgAction::Set, default: Some(""@) })
    &&& a.contains(ArgV { name: "mapping_var"@, short: None, long: Some("mapping-var"@), required: false, many: false, action: ArgAction::Append, default: None })
    &&& a.contains(ArgV { name: "mapping_src"@, short: None, long: Some("mapping-src"@), required: false, many: false, action: ArgAction::Append, default: None })
    &&& a.contains(ArgV { name: "mapping_dest"@, short: None, long: Some("mapping-dest"@), required: false, many: false, action: ArgAction::Append, default: None })
    &&& a.contains(ArgV { name: "mapping_file"@, short: None, long: Some("mapping-file"@), required: false, many: false, action: ArgAction::Set, default: None })
    &&& a.contains(ArgV { name: "inlines"@, short: None, long: Some("inlines"@), required: false, many: false, action: ArgAction::SetTrue, default: None })
    &&& a.contains(ArgV { name: "extra_info"@, short: None, long: Some("extra-info"@), required: false, many: false, action: ArgAction::Append, default: None })
    &&& a.contains(ArgV { name: "no-generator"@, short: None, long: Some("no-generator"@), required: false, many: false, action: ArgAction::SetTrue, default: None })
}
/// the dump of one file (contract of dumper::single_file, unit dumper)
pub uninterp spec fn dumped_one(c: Config, f: Seq<char>) -> bool;
/// the dump of several files (contract of dumper::several_files, unit dumper)
pub uninterp spec fn dumped_all(c: Config, f: Seq<Seq<char>>) -> bool;
/// the dump of the file failed for one of the reasons in single_fails (unit dumper)
pub uninterp spec fn one_fails(c: Config, f: Seq<char>) -> bool;
/// dumper::several_files reported an error
pub uninterp spec fn all_fail(c: Config, f: Seq<Seq<char>>) -> bool;
/// the architectures of an archive are printed (defined in unit formats)
pub uninterp spec fn arch_printed(content: Seq<u8>, name: Seq<char>) -> bool;
/// the bytes are not an archive of objects (contract of mac::print_macho_architectures, unit formats)
pub uninterp spec fn no_archive(content: Seq<u8>) -> bool;
/// mac::print_macho_architectures (contract proved in unit formats)
#[verifier::external_body]
pub fn vx_list_arch(buf: &[u8], file_name: String) -> (r: VxResult<()>)
    requires may_print()
    ensures r is Ok ==> arch_printed(buf@, file_name@), r is Err ==> no_archive(buf@)
{ unimplemented!() }
pub open spec fn listed(p: Seq<char>) -> bool { name_of(p) is Some && arch_printed(content_of(p), name_of(p)->0) }
/// C25: it is done
pub open spec fn done(a: Action, f: Seq<Seq<char>>) -> bool {
    match a {
        Action::Dump(c) => if f.len() == 1 { dumped_one(c, f[0]) } else { dumped_all(c, f) },
        Action::ListArch => forall|i: int| 0 <= i < f.len() ==> listed(#[trigger] f[i]),
    }
}
/// C25: it cannot be done
pub open spec fn fails(a: Action, f: Seq<Seq<char>>) -> bool {
    match a {
        Action::Dump(c) => if f.len() == 1 { one_fails(c, f[0]) } else { all_fail(c, f) },
        Action::ListArch => exists|i: int| 0 <= i < f.len() && no_archive(content_of(#[trigger] f[i])),
    }
}
/// C25: what the command line asks for is done
pub open spec fn all_done() -> bool { info_set() && exists|a: Action, f: Seq<Seq<char>>| #[trigger] asked(a, f) && done(a, f) }
/// C25: the only reasons for an exit status other than 0 (besides a panic)
pub open spec fn may_give_up() -> bool {
    ||| exists|a: Action, f: Seq<Seq<char>>| #[trigger] asked(a, f) && fails(a, f)
    ||| exists|s: Seq<char>| #[trigger] info_given(s) && !info_ok(s)
}
pub open spec fn info_given(s: Seq<char>) -> bool { cmdline().list("extra_info"@) matches Some(l) && exists|i: int| 0 <= i < l.len() && #[trigger] l[i] == s }
/// utils::get_filename (unit utils), whose panic ends the process
#[verifier::external_body]
pub fn vx_filename(p: &VxPath) -> (r: String) ensures name_of(p.text()) == Some(r@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_dump_one(c: &Config, f: &str) -> (r: VxResult<()>)
    requires asked(Action::Dump(*c), seq![f@]), info_set()
    ensures r is Ok ==> dumped_one(*c, f@), r is Err ==> one_fails(*c, f@)
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_dump_all(c: &Config, f: &[&str]) -> (r: VxResult<()>)
    requires asked(Action::Dump(*c), texts(f@)), f@.len() != 1, info_set()
    ensures r is Ok ==> dumped_all(*c, texts(f@)), r is Err ==> all_fail(*c, texts(f@))
{ unimplemented!() }
/// C25: the additional INFO lines
pub open spec fn info_ok(s: Seq<char>) -> bool { re_finds("^[A-Z_]+ .*"@, s) }
pub uninterp spec fn version() -> Seq<char>;
pub open spec fn wanted_info(m: VxMatches) -> Seq<Seq<char>> {
    (match m.list("extra_info"@) { Some(l) => l, None => Seq::empty() }) + (if m.flag("no-generator"@) { Seq::empty() } else { seq!["GENERATOR mozilla/dump_syms "@ + version()] })
}
#[verifier::external_body]
pub fn vx_version() -> (r: &'static str) ensures r@ == version() { unimplemented!() }
pub open spec fn stexts(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
pub uninterp spec fn info_set() -> bool;
pub struct VxInfoCell { pub p: u8 }
pub fn vx_info_cell() -> (r: VxInfoCell) { VxInfoCell { p: 0 } }
impl VxInfoCell {
    #[verifier::external_body] pub fn set(&self, v: Vec<String>) -> (r: VxResult<()>)
        requires stexts(v@) =~= wanted_info(cmdline()), forall|i: int| 0 <= i < (match cmdline().list("extra_info"@) { Some(l) => l.len() as int, None => 0 }) ==> info_ok(#[trigger] v@[i]@)
        ensures r is Ok ==> info_set()
    { unimplemented!() }
}

@fn <From<&str> for FileOutput>::from
@props C25
@self FileOutput
@as file_output_from
@spec
    ensures out_of(s@, r)

@fn cli
@props C25
@subst crate_version!() =>> ""
@subst crate_authors!("\n") =>> ""
@subst 1.. =>> vx_at_least_one()
@spec
    ensures interface(r.args())

@fn to_vec
@props C25
@spec
    requires values.pos() == 0
    ensures texts(r@) =~= String::texts(values.seq())

@fn Action::single_file
@props C25
@maypanic
@spec
    requires match *self { Action::ListArch => may_print(), Action::Dump(c) => asked(*self, seq![filename@]) }, info_set()
    ensures r is Ok ==> done(*self, seq![filename@]), r is Err ==> fails(*self, seq![filename@]),
        *self is ListArch ==> (if r is Ok { listed(filename@) } else { no_archive(content_of(filename@)) })
@at start
    proof { assert(seq![filename@][0] == filename@); }

@fn Action::several_files
@props C25
@maypanic
@spec
    requires asked(*self, texts(filenames@)), filenames@.len() != 1, info_set()
    ensures r is Ok ==> done(*self, texts(filenames@)), r is Err ==> fails(*self, texts(filenames@))
@loop 0
    invariant vx_it0.ok(), vx_it0.seq().len() == filenames@.len(), forall|i: int| 0 <= i < vx_it0.seq().len() ==> *(#[trigger] vx_it0.seq()[i]) == filenames@[i], may_print(), info_set(), *self is ListArch,
        forall|i: int| 0 <= i < vx_it0.pos() ==> listed(#[trigger] texts(filenames@)[i]),
    decreases vx_it0.seq().len() - vx_it0.pos()
@at loopstart 0
    proof { assert(texts(filenames@)[vx_it0.pos() - 1] == filenames@[vx_it0.pos() - 1]@); }

@fn Action::action
@props C25
@maypanic
@spec
    requires asked(*self, texts(filenames@)), info_set()
    ensures r is Ok ==> done(*self, texts(filenames@)) && all_done(), r is Err ==> may_give_up()
@at start
    proof { if filenames@.len() == 1 { assert(texts(filenames@) =~= seq![filenames@[0]@]); } }

@fn get_extra_info
@props C25
@maypanic
@unwraps
@subst EXTRA_INFO =>> vx_info_cell()
@subst env!("CARGO_PKG_VERSION") =>> vx_version()
@spec
    requires *matches == cmdline()
    ensures info_set()
@clo 0 values: VxIter<&String> ->> (v: Vec<String>)
    requires values.pos() == 0, cmdline().list("extra_info"@) == Some(String::texts(values.seq()))
    ensures stexts(v@) =~= String::texts(values.seq()), forall|i: int| 0 <= i < v@.len() ==> info_ok(#[trigger] v@[i]@)
@clo 1 line: &String ->> (s: String)
    requires info_given(line@)
    ensures s@ == line@, info_ok(s@)
@at start
    proof {
        assert forall|v: Seq<&String>, i: int| cmdline().list("extra_info"@) == Some(String::texts(v)) && 0 <= i < v.len() implies info_given((#[trigger] v[i])@) by { let l = cmdline().list("extra_info"@)->0; assert(l == String::texts(v)); assert(l[i] == v[i]@); }
    }

@fn main
@props C25
@maypanic
@unwraps
@spec
    ensures all_done()
@at end
    assert(asked(action, texts(filenames@)));
    assert(done(action, texts(filenames@)));
