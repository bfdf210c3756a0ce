# Contracts of src/dumper.rs  (C17, C18)
@file src/dumper.rs
@typemap Box<dyn std::io::Write> => VxSink
@typemap std::io::BufWriter<Box<dyn std::io::Write>> => VxOut
@path fs::create_dir_all => vx_mkdirs
@path std::fs::create_dir_all => vx_mkdirs
@path Box::new => vx_boxed
@path std::io::stdout => vx_stdout
@path std::io::stderr => vx_stderr
@path std::io::BufWriter::new => vx_out
@enum FileOutput
@enum Output
@struct Config
@enum JobType
@struct PoisonOnFailure
@struct JobItem
@raw
// ---------------------------------------------------------------- C17
/// the destination behind a FileOutput
pub uninterp spec fn dest_stdout() -> VxDest;
pub uninterp spec fn dest_stderr() -> VxDest;
pub uninterp spec fn dest_file(p: Seq<char>) -> VxDest;
pub open spec fn dest_of(f: FileOutput) -> VxDest { match f { FileOutput::Path(p) => dest_file(p.text()), FileOutput::Stdout => dest_stdout(), FileOutput::Stderr => dest_stderr() } }
/// what is behind a buffered writer
#[verifier::external_body]
pub struct VxSink { _p: u8 }
impl VxSink { pub uninterp spec fn dest(&self) -> VxDest; }
pub struct VxStdout { pub p: u8 }
pub struct VxStderr { pub p: u8 }
pub fn vx_stdout() -> (r: VxStdout) { VxStdout { p: 0 } }
pub fn vx_stderr() -> (r: VxStderr) { VxStderr { p: 0 } }
pub trait VxHasDest { spec fn hdest(&self) -> VxDest; }
impl VxHasDest for VxStdout { open spec fn hdest(&self) -> VxDest { dest_stdout() } }
impl VxHasDest for VxStderr { open spec fn hdest(&self) -> VxDest { dest_stderr() } }
impl VxHasDest for VxFile { open spec fn hdest(&self) -> VxDest { dest_file(self.path()) } }
#[verifier::external_body]
pub fn vx_boxed<A: VxHasDest>(a: A) -> (r: VxSink) ensures r.dest() == a.hdest() { unimplemented!() }
#[verifier::external_body]
pub fn vx_out(s: VxSink) -> (r: VxOut) ensures r.dest() == s.dest(), r.accepted() == Seq::<char>::empty() { unimplemented!() }
/// the writers get_writer_for_sym gives
#[verifier::external_body]
pub struct VxOut { _p: u8 }
impl VxWrite for VxOut {
    uninterp spec fn accepted(&self) -> Seq<char>;
    uninterp spec fn dest(&self) -> VxDest;
    #[verifier::external_body] fn vx_emit(&mut self, b: VxBuf) -> (r: VxResult<()>) { unimplemented!() }
    #[verifier::external_body] fn flush(&mut self) -> (r: VxResult<()>) { unimplemented!() }
}
pub open spec fn out_may_create(f: FileOutput) -> bool { match f { FileOutput::Path(p) => may_create(p.text()), _ => true } }
/// the file of the symbol store
pub open spec fn is_store_path(dir: Seq<char>, o: ObjectInfo, p: Seq<char>) -> bool {
    exists|f: Seq<char>| #[trigger] is_sym_name(o.file_name@, f) && p == path_join(path_join(Seq::empty(), dir), path_join(path_join(base_text(o.file_name@), o.debug_id@), f))
}
/// an empty store directory means no store (and one whose name is not UTF-8 too)
pub open spec fn store_dir(o: Output) -> Option<VxPath> {
    match o {
        Output::File(_) => None,
        Output::Store(d) => if d.utf8() && d.text().len() > 0 { Some(d) } else { None },
        Output::FileAndStore { file, store_directory } => if store_directory.utf8() && store_directory.text().len() > 0 { Some(store_directory) } else { None },
    }
}
pub open spec fn out_file(o: Output) -> Option<FileOutput> {
    match o { Output::File(f) => Some(f), Output::Store(_) => None, Output::FileAndStore { file, store_directory } => Some(file) }
}
/// C17: the complete text is at every requested destination
pub open spec fn delivered(out: Output, o: ObjectInfo) -> bool {
    &&& out_file(out) is Some ==> written(dest_of(out_file(out)->0), object_text(o))
    &&& store_dir(out) is Some ==> exists|p: Seq<char>| #[trigger] is_store_path((store_dir(out)->0).text(), o, p) && written(dest_file(p), object_text(o))
}
/// what the caller lets a dump create
pub open spec fn may_deliver(out: Output, o: ObjectInfo) -> bool {
    &&& out_file(out) is Some ==> out_may_create(out_file(out)->0)
    &&& store_dir(out) is Some ==> forall|p: Seq<char>| #[trigger] is_store_path((store_dir(out)->0).text(), o, p) ==> may_create(p) && (parent_of(p) is Some ==> may_mkdirs(parent_of(p)->0))
}
/// the caller lets a dump create the directory
pub uninterp spec fn may_mkdirs(p: Seq<char>) -> bool;
/// the directory could not be made
pub uninterp spec fn mkdirs_failed(p: Seq<char>) -> bool;
/// a requested destination could not be written
pub open spec fn deliver_failed(out: Output, o: ObjectInfo) -> bool {
    ||| out_file(out) is Some && write_failed(dest_of(out_file(out)->0))
    ||| store_dir(out) is Some && exists|p: Seq<char>| #[trigger] is_store_path((store_dir(out)->0).text(), o, p) && (write_failed(dest_file(p)) || (parent_of(p) is Some && mkdirs_failed(parent_of(p)->0)))
}
#[verifier::external_body]
pub fn vx_mkdirs<A: VxPathArg>(a: A) -> (r: VxResult<()>) requires may_mkdirs(a.ptext()) ensures r is Err ==> mkdirs_failed(a.ptext()) { unimplemented!() }
/// (std) a path that ends in .sym has a parent
#[verifier::external_body]
pub proof fn axiom_store_parent()
    ensures forall|d: Seq<char>, x: Seq<char>, a: Seq<char>| parent_of(#[trigger] path_join(d, path_join(x, a + ".sym"@))) is Some
{ }
pub proof fn lemma_store_parent(dir: Seq<char>, o: ObjectInfo, p: Seq<char>)
    requires is_store_path(dir, o, p)
    ensures parent_of(p) is Some
{
    axiom_store_parent();
    let f = choose|f: Seq<char>| #[trigger] is_sym_name(o.file_name@, f) && p == path_join(path_join(Seq::empty(), dir), path_join(path_join(base_text(o.file_name@), o.debug_id@), f));
    let x = path_join(base_text(o.file_name@), o.debug_id@);
    let d = path_join(Seq::<char>::empty(), dir);
    if exists|k: int, a: Seq<char>, b: Seq<char>| #[trigger] last_cut('.', o.file_name@, k, a, b) && lower(b) == "pdb"@ {
        let (k, a, b) = choose|k: int, a: Seq<char>, b: Seq<char>| #[trigger] last_cut('.', o.file_name@, k, a, b) && f == a + ".sym"@;
        assert(parent_of(path_join(d, path_join(x, a + ".sym"@))) is Some);
    } else { assert(parent_of(path_join(d, path_join(x, o.file_name@ + ".sym"@))) is Some); }
}

@fn get_writer_for_sym
@props C17
@maypanic
@spec
    requires out_may_create(*fo)
    ensures r.dest() == dest_of(*fo), r.accepted() == Seq::<char>::empty()

@fn store::sym_store_path
@captures object_info: &ObjectInfo
@strarg get_path_for_sym
@props C17 C16
@spec
    ensures match r { Some(p) => dir.utf8() && dir.text().len() > 0 && is_store_path(dir.text(), *object_info, p.text()) && parent_of(p.text()) is Some, None => !(dir.utf8() && dir.text().len() > 0) }
@at start
    proof { assert forall|p: Seq<char>| is_store_path(dir.text(), *object_info, p) implies #[trigger] parent_of(p) is Some by { lemma_store_parent(dir.text(), *object_info, p); } 
      assert forall|f: Seq<char>| #[trigger] is_sym_name(object_info.file_name@, f) implies is_store_path(dir.text(), *object_info, path_join(path_join(Seq::empty(), dir.text()), path_join(path_join(base_text(object_info.file_name@), object_info.debug_id@), f))) by { } }

@fn store
@props C17
@maypanic
@spec
    requires object_disp_ok(object_info), !check_cfi || object_info.stack@.len() > 0 ==> may_deliver(*output, object_info)
    ensures r is Ok ==> (!check_cfi || object_info.stack@.len() > 0) && delivered(*output, object_info),
        r is Err ==> (check_cfi && object_info.stack@.len() == 0) || deliver_failed(*output, object_info)
@at after let (foutput, store)
    proof {
        assert(store_dir(*output) is Some == store is Some);
        assert(store is Some ==> is_store_path((store_dir(*output)->0).text(), object_info, (store->0).text()));
        assert(foutput is Some == out_file(*output) is Some);
    }

@raw
// ---------------------------------------------------------------- one file
pub open spec fn wanted_id(c: Config) -> Option<Seq<char>> { match c.debug_id { Some(x) => Some(x@), None => match c.code_id { Some(x) => Some(x@), None => None } } }
/// C19: the bytes that are dumped
pub open spec fn content_for(c: Config, path: Seq<char>, name: Seq<char>, b: Seq<u8>) -> bool {
    match wanted_id(c) {
        None => b == content_of(path),
        Some(id) => name.len() > 0 && (servers_of(server_text(c.symbol_server)) matches Some(s) && looked_up(s, id, name, Some(b))),
    }
}
/// C19: no cache and no server has the file
pub open spec fn nowhere_found(c: Config, name: Seq<char>) -> bool {
    wanted_id(c) matches Some(id) && (name.len() == 0 || match servers_of(server_text(c.symbol_server)) { None => true, Some(s) => looked_up(s, id, name, None) })
}
/// C25: why a run may fail: the file is not found, the mapping options are rejected, there is no such architecture, the file cannot be
/// dumped, it has no unwind information although that was asked for, or a destination could not be written
pub open spec fn single_fails(c: Config, file: Seq<char>) -> bool {
    ||| name_of(file) is Some && nowhere_found(c, name_of(file)->0)
    ||| mappings_rejected(c.mapping_var, c.mapping_src, c.mapping_dest, c.mapping_file)
    ||| arch_named(c.arch@) is None
    ||| name_of(file) is Some && exists|b: Seq<u8>| #[trigger] content_for(c, file, name_of(file)->0, b) && undumpable(b, file, arch_named(c.arch@)->0, server_text(c.symbol_server))
    ||| exists|o: ObjectInfo| #[trigger] single_dump(c, file, o) && ((c.check_cfi && o.stack@.len() == 0) || deliver_failed(c.output, o))
}
/// C17: o is the dump that the run with that configuration has to write
pub open spec fn single_dump(c: Config, file: Seq<char>, o: ObjectInfo) -> bool {
    name_of(file) is Some && arch_named(c.arch@) is Some && exists|b: Seq<u8>| #[trigger] content_for(c, file, name_of(file)->0, b)
        && dumped(b, file, name_of(file)->0, mappings_given(c.mapping_var, c.mapping_src, c.mapping_dest, c.mapping_file), arch_named(c.arch@)->0, server_text(c.symbol_server), c.emit_inlines, o)
}

@fn get_from_id
@props C19 C17 C23
@maypanic
@spec
    requires path.utf8(), may_fill_caches()
    ensures r matches Ok(t) ==> t.1@ == filename@ && content_for(*config, path.text(), filename@, t.0@),
        r is Err ==> nowhere_found(*config, filename@)

@fn single_file
@props C17 C19 C20 C15 C23
@maypanic
@spec
    requires all_dumpable(), may_fill_caches(), name_of(filename@) is Some,
        forall|o: ObjectInfo| #[trigger] single_dump(*config, filename@, o) && (!config.check_cfi || o.stack@.len() > 0) ==> may_deliver(config.output, o)
    ensures r is Ok ==> exists|o: ObjectInfo| #[trigger] single_dump(*config, filename@, o) && (!config.check_cfi || o.stack@.len() > 0) && delivered(config.output, o),
        r is Err ==> single_fails(*config, filename@)
@at start
    let ghost vx_f = filename@;
@at tail
    proof { assert(single_dump(*config, vx_f, object_info)); }

@fn Config::with_output
@props C17
@spec
    ensures r.output == output, r.symbol_server is None, r.debug_id is None, r.code_id is None, r.check_cfi, r.emit_inlines, r.mapping_var is None, r.mapping_src is None, r.mapping_dest is None, r.mapping_file is None, r.num_jobs == 1, r.arch@ == compile_arch()

@raw
// ---------------------------------------------------------------- C18: the worker protocol
/// where a worker is in the protocol
pub enum WSt {
    Idle,
    /// it has to dump this file
    Got(Seq<char>, bool),
    /// ... and holds the results
    Held(Seq<char>, bool),
    /// ... and took what was there for the module out
    Removed(Seq<char>, bool, Seq<char>, Option<ObjectInfo>),
    /// the file is in the results
    Recorded,
    /// its file was the last one
    Last,
    LastHeld,
    /// the first k modules are handed over
    Draining(Seq<ObjectInfo>, int),
    /// the queue got k end marks
    Poison(nat),
    /// it has to write this module
    Must(ObjectInfo),
    Done,
    /// it gave up, and the queue got k end marks
    Failed(nat),
    /// this is not a worker but the thread that starts them
    Main(MSt),
}
pub struct MSt {
    pub files: Seq<Seq<char>>,
    pub inlines: bool,
    /// the number of workers each worker was told
    pub n: int,
    pub spawned: int,
    pub sent: int,
    pub joined: int,
    /// a worker that was joined failed
    pub failed: bool,
}
impl VxWorld {
    pub uninterp spec fn st(&self) -> WSt;
    pub uninterp spec fn n(&self) -> int;
    pub uninterp spec fn output(&self) -> Output;
    pub uninterp spec fn check_cfi(&self) -> bool;
    pub uninterp spec fn mapping(&self) -> Option<VxMappings>;
    pub uninterp spec fn arch(&self) -> VxArch;
    pub open spec fn same_run(&self, o: &VxWorld) -> bool { self.n() == o.n() && self.output() == o.output() && self.check_cfi() == o.check_cfi() && self.mapping() == o.mapping() && self.arch() == o.arch() }
}
pub open spec fn dumped_file(w: VxWorld, file: Seq<char>, inlines: bool, o: ObjectInfo) -> bool {
    name_of(file) is Some && dumped(content_of(file), file, name_of(file)->0, w.mapping(), w.arch(), None, inlines, o)
}
/// C11, C18: the merge of two dumps of a module, in either order
pub open spec fn merge_either(a: ObjectInfo, b: ObjectInfo, f: ObjectInfo) -> bool { a.debug_id@ == b.debug_id@ && (merge_of(a, b, f) || merge_of(b, a, f)) }
/// the results now have, for the module, what they had merged with the dump of the file
pub open spec fn recorded(w: VxWorld, file: Seq<char>, inlines: bool, key: Seq<char>, prev: Option<ObjectInfo>, v: ObjectInfo) -> bool {
    v.debug_id@ == key && match prev {
        None => dumped_file(w, file, inlines, v),
        Some(p) => exists|info: ObjectInfo| name_of(file) is Some && #[trigger] dumped(content_of(file), file, name_of(file)->0, w.mapping(), w.arch(), None, inlines, info) && merge_either(info, p, v),
    }
}
/// C17, C18: the module is written, or the worker may not go on
pub open spec fn finished(w: VxWorld, d: ObjectInfo) -> bool { (!w.check_cfi() || d.stack@.len() > 0) && delivered(w.output(), d) }
pub open spec fn may_write(w: VxWorld, d: ObjectInfo) -> bool { !w.check_cfi() || d.stack@.len() > 0 ==> may_deliver(w.output(), d) }
pub open spec fn handed_over(w: VxWorld, items: Seq<ObjectInfo>, k: int) -> bool { forall|i: int| k <= i < items.len() ==> finished(w, #[trigger] items[i]) }
/// the end marks the worker has put into the queue since it began to do so
pub open spec fn end_marks(s: WSt) -> int { match s { WSt::Poison(k) => k as int, WSt::Failed(k) => k as int, _ => 0 } }
/// what goes through the queue
pub enum Msg { Get(Seq<char>, bool), Dump(ObjectInfo), End }
// ---- the steps of one worker: what the contracts of the channel, the lock and the counter say
pub open spec fn recv_ready(w: VxWorld, s: WSt) -> bool {
    match s { WSt::Idle => true, WSt::Poison(k) => k >= w.n(), WSt::Must(d) => finished(w, d), _ => false }
}
pub open spec fn received(m: Msg) -> WSt { match m { Msg::End => WSt::Done, Msg::Get(f, i) => WSt::Got(f, i), Msg::Dump(d) => WSt::Must(d) } }
/// an end mark sent before its time is a failure
pub open spec fn marked(w: VxWorld, s: WSt) -> WSt {
    match s {
        WSt::Draining(items, k) => if handed_over(w, items, k) { WSt::Poison(1) } else { WSt::Failed(1) },
        WSt::Poison(k) => WSt::Poison((k + 1) as nat),
        WSt::Failed(k) => WSt::Failed((k + 1) as nat),
        _ => WSt::Failed(1),
    }
}
pub open spec fn locked(s: WSt) -> WSt { match s { WSt::Got(f, i) => WSt::Held(f, i), _ => WSt::LastHeld } }
pub open spec fn counted(before: int) -> WSt { if before == 1 { WSt::Last } else { WSt::Idle } }
pub open spec fn msg_of(m: Option<JobItem>) -> Msg { match m { None => Msg::End, Some(j) => match j.typ { JobType::Get => Msg::Get(j.file@, j.collect_inlines), JobType::Dump(d) => Msg::Dump(d) } } }
pub open spec fn can_recv(w: VxWorld) -> bool { recv_ready(w, w.st()) }
impl VxReceiver {
    /// (the worker has a sender too, so the channel is never disconnected)
    #[verifier::external_body]
    pub fn vx_recv(&self, w: &mut VxWorld) -> (r: VxResult<Option<JobItem>>)
        requires can_recv(*old(w))
        ensures final(w).same_run(old(w)), r matches Ok(j) && final(w).st() == received(msg_of(j)) && match j {
            None => true,
            Some(job) => match job.typ {
                JobType::Get => job.mapping == final(w).mapping() && name_of(job.file@) is Some,
                JobType::Dump(d) => good(d, final(w).mapping()) && may_write(*final(w), d),
            },
        }
    { unimplemented!() }
}
impl VxSender {
    #[verifier::external_body]
    pub fn vx_send(&self, m: Option<JobItem>, w: &mut VxWorld) -> (r: VxResult<()>)
        requires m matches Some(j) ==> match old(w).st() {
                WSt::Draining(items, k) => k < items.len() && j.typ == JobType::Dump(items[k]),
                WSt::Main(s) => s.sent < s.files.len() && j.typ is Get && j.file@ == s.files[s.sent] && name_of(j.file@) is Some && j.mapping == old(w).mapping() && j.collect_inlines == s.inlines,
                _ => false,
            }
        ensures final(w).same_run(old(w)), r is Ok, final(w).st() == (match m {
            Some(_) => match old(w).st() { WSt::Draining(items, k) => WSt::Draining(items, k + 1), WSt::Main(s) => WSt::Main(MSt { sent: s.sent + 1, ..s }), s => s },
            None => marked(*old(w), old(w).st()),
        })
    { unimplemented!() }
}
impl VxShared {
    /// (a worker that panics with the results ends the run)
    #[verifier::external_body]
    pub fn vx_lock(&self, w: &mut VxWorld) -> (r: VxResult<VxResults>)
        requires old(w).st() is Got || old(w).st() is Last
        ensures final(w).same_run(old(w)), r is Ok, final(w).st() == locked(old(w).st())
    { unimplemented!() }
}
impl<T> VxIter<T> {
    #[verifier::external_body]
    pub fn vx_take(self, n: usize) -> (r: VxIter<T>)
        ensures r.ok(), r.pos() == 0, r.seq() == self.seq().subrange(self.pos() as int, if self.pos() + n < self.seq().len() { self.pos() + n } else { self.seq().len() as int })
    { unimplemented!() }
}
impl VxResults {
    /// the modules, in the order the table has them
    pub uninterp spec fn items(&self) -> Seq<ObjectInfo>;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.items().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_remove(&mut self, key: &str, w: &mut VxWorld) -> (r: Option<ObjectInfo>)
        requires old(w).st() is Held
        ensures final(w).same_run(old(w)), final(w).st() == (match old(w).st() { WSt::Held(f, i) => WSt::Removed(f, i, key@, r), s => s }),
            r matches Some(o) ==> o.debug_id@ == key@ && good(o, final(w).mapping()),
            // (memory) the tables of two modules together have fewer than 2^32 entries
            r matches Some(o) ==> forall|x: ObjectInfo| (#[trigger] x.files.id_to_ref@).len() + o.files.id_to_ref@.len() <= u32::MAX && x.inline_origins@.len() + o.inline_origins@.len() <= u32::MAX
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_insert(&mut self, key: String, v: ObjectInfo, w: &mut VxWorld) -> (r: Option<ObjectInfo>)
        requires old(w).st() is Removed, key@ == old(w).st()->Removed_2, recorded(*old(w), old(w).st()->Removed_0, old(w).st()->Removed_1, key@, old(w).st()->Removed_3, v), good(v, old(w).mapping())
        ensures final(w).same_run(old(w)), final(w).st() is Recorded
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_drain(&mut self, w: &mut VxWorld) -> (r: VxIter<(String, ObjectInfo)>)
        requires old(w).st() is LastHeld
        ensures final(w).same_run(old(w)), final(w).st() == WSt::Draining(old(self).items(), 0), r.pos() == 0, r.seq().len() == old(self).items().len(),
            forall|i: int| 0 <= i < r.seq().len() ==> (#[trigger] r.seq()[i]).1 == old(self).items()[i] && good(r.seq()[i].1, final(w).mapping()) && may_write(*final(w), r.seq()[i].1)
    { unimplemented!() }
}
impl VxCounter {
    #[verifier::external_body]
    pub fn vx_fetch_sub(&self, k: usize, o: VxOrdering, w: &mut VxWorld) -> (r: usize)
        requires old(w).st() is Recorded, k == 1
        ensures final(w).same_run(old(w)), final(w).st() == counted(r as int)
    { unimplemented!() }
}
// ---------------------------------------------------------------- the thread that starts the workers
pub uninterp spec fn arch_named(s: Seq<char>) -> Option<VxArch>;
#[verifier::external_body]
pub fn vx_arch_from_str(s: &str) -> (r: VxResult<VxArch>)
    ensures match r { Ok(a) => arch_named(s@) == Some(a), Err(_) => arch_named(s@) is None }
{ unimplemented!() }
/// the mappings of the run (contract of PathMappings::new: unit `mapping`)
/// the mapping options are not accepted (contract of PathMappings::new, unit mapping)
pub uninterp spec fn mappings_rejected<'a>(var: Option<Vec<&'a str>>, src: Option<Vec<&'a str>>, dest: Option<Vec<&'a str>>, file: Option<&'a str>) -> bool;
pub uninterp spec fn mappings_given<'a>(var: Option<Vec<&'a str>>, src: Option<Vec<&'a str>>, dest: Option<Vec<&'a str>>, file: Option<&'a str>) -> Option<VxMappings>;
#[verifier::external_body]
pub fn vx_mappings_new<'a>(var: &Option<Vec<&'a str>>, src: &Option<Vec<&'a str>>, dest: &Option<Vec<&'a str>>, file: &Option<&'a str>) -> (r: VxResult<Option<VxMappings>>)
    ensures r matches Ok(m) ==> m == mappings_given(*var, *src, *dest, *file), r is Err ==> mappings_rejected(*var, *src, *dest, *file)
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_arc<T>(t: T) -> (r: T) ensures r == t { unimplemented!() }
#[verifier::external_body]
pub fn vx_arc_clone<T>(t: &T) -> (r: T) ensures r == *t { unimplemented!() }
#[verifier::external_body]
pub fn vx_results() -> (r: VxResults) ensures r.items().len() == 0 { unimplemented!() }
impl VxShared { pub uninterp spec fn starts_empty(&self) -> bool; }
#[verifier::external_body]
pub fn vx_mutex(r: VxResults) -> (s: VxShared) ensures s.starts_empty() == (r.items().len() == 0) { unimplemented!() }
impl VxCounter { pub uninterp spec fn start(&self) -> int; }
#[verifier::external_body]
pub fn vx_counter(n: usize) -> (r: VxCounter) ensures r.start() == n { unimplemented!() }
/// the two ends of a channel that takes any number of messages
impl VxSender { pub uninterp spec fn chan(&self) -> int; }
impl VxReceiver { pub uninterp spec fn chan(&self) -> int; }
#[verifier::external_body]
pub fn vx_channel() -> (r: (VxSender, VxReceiver)) ensures r.0.chan() == r.1.chan() { unimplemented!() }
#[verifier::external_body]
pub struct VxBuilder { _p: u8 }
#[verifier::external_body]
pub struct VxHandle { _p: u8 }
#[verifier::external_body]
pub fn vx_builder() -> (r: VxBuilder) { unimplemented!() }
impl VxBuilder {
    #[verifier::external_body]
    pub fn vx_name(self, n: String) -> (r: VxBuilder) { unimplemented!() }
    /// a new thread runs several_files_spawn (its contract: below), in a state as that requires
    #[verifier::external_body]
    pub fn vx_spawn(self, arch: VxArch, sender: VxSender, receiver: VxReceiver, results: VxShared, counter: VxCounter, num_jobs: usize, output: Output, check_cfi: bool, w: &mut VxWorld) -> (r: VxResult<VxHandle>)
        requires old(w).st() matches WSt::Main(s) && s.joined == 0 && num_jobs > 0 && (s.spawned > 0 ==> s.n == num_jobs) && s.spawned < num_jobs && counter.start() == s.files.len(),
            sender.chan() == receiver.chan(), results.starts_empty(), output == old(w).output(), check_cfi == old(w).check_cfi(), arch == old(w).arch()
        ensures final(w).same_run(old(w)), r is Ok, final(w).st() == (match old(w).st() { WSt::Main(s) => WSt::Main(MSt { n: num_jobs as int, spawned: s.spawned + 1, ..s }), s => s })
    { unimplemented!() }
}
impl VxHandle {
    /// (a worker's panic is passed on by the unwrap that follows: the run ends with it)
    #[verifier::external_body]
    pub fn vx_join(self, w: &mut VxWorld) -> (r: VxResult<VxResult<()>>)
        requires old(w).st() is Main
        ensures final(w).same_run(old(w)), r is Ok, final(w).st() == (match old(w).st() { WSt::Main(s) => WSt::Main(MSt { joined: s.joined + 1, failed: s.failed || r->Ok_0 is Err, ..s }), s => s })
    { unimplemented!() }
}
pub trait VxAnd { fn vx_and(self, o: Self) -> (r: Self); }
impl VxAnd for VxResult<()> {
    fn vx_and(self, o: Self) -> (r: Self)
        ensures r == (match self { Ok(_) => o, Err(_) => self })
    { match self { Ok(_) => o, Err(e) => Err(e) } }
}

@fn poison_queue
@props C18
@spec
    requires num_threads == old(vx_w).n(), num_threads > 0, old(vx_w).st() matches WSt::Draining(items, k) && handed_over(*old(vx_w), items, k)
    ensures final(vx_w).same_run(old(vx_w)), final(vx_w).st() matches WSt::Poison(k) && k >= final(vx_w).n()
@loop 0
    invariant vx_w.same_run(old(vx_w)), num_threads == old(vx_w).n(), 
        match vx_w.st() { WSt::Draining(items, k) => vx_it0.pos() == 0 && handed_over(*vx_w, items, k), WSt::Poison(k) => k >= vx_it0.pos() && k > 0, _ => false },
        vx_it0.ok(), vx_it0.seq().len() == num_threads, num_threads > 0
    decreases vx_it0.seq().len() - vx_it0.pos()

@fn send_store_jobs
@props C18
@spec
    requires num_threads == old(vx_w).n(), num_threads > 0, old(vx_w).st() is LastHeld, output == old(vx_w).output(), check_cfi == old(vx_w).check_cfi()
    ensures final(vx_w).same_run(old(vx_w)), r is Ok ==> (final(vx_w).st() matches WSt::Poison(k) && k >= final(vx_w).n())
@at start
    let ghost vx_items = results.items();
@loop 0
    invariant vx_it0.ok(), vx_w.same_run(old(vx_w)), vx_it0.seq().len() == vx_items.len(), vx_w.st() == WSt::Draining(vx_items, vx_it0.pos() as int),
        forall|i: int| 0 <= i < vx_it0.seq().len() ==> (#[trigger] vx_it0.seq()[i]).1 == vx_items[i]
    decreases vx_it0.seq().len() - vx_it0.pos()

@fn consumer
@props C18
@attr verifier::exec_allows_no_decreases_clause
@spec
    requires num_threads == old(vx_w).n(), num_threads > 0, output == old(vx_w).output(), check_cfi == old(vx_w).check_cfi(), arch == old(vx_w).arch(), old(vx_w).st() is Idle, all_dumpable(), may_fill_caches()
    ensures final(vx_w).same_run(old(vx_w)), r is Ok ==> final(vx_w).st() is Done
@loop 0
    invariant_except_break can_recv(*vx_w)
    invariant num_threads == vx_w.n(), num_threads > 0, output == vx_w.output(), check_cfi == vx_w.check_cfi(), arch == vx_w.arch(), vx_w.same_run(old(vx_w)), all_dumpable(), may_fill_caches()
    ensures vx_w.st() is Done

@fn <Drop for PoisonOnFailure>::drop
@props C18
@spec
    requires old(self).num_threads == old(vx_w).n()
    ensures final(vx_w).same_run(old(vx_w)), if old(self).armed { end_marks(final(vx_w).st()) >= old(vx_w).n() } else { final(vx_w).st() == old(vx_w).st() }
@loop 0
    invariant vx_w.same_run(old(vx_w)), vx_it0.ok(), vx_it0.seq().len() == old(vx_w).n(), end_marks(vx_w.st()) >= vx_it0.pos()
    decreases vx_it0.seq().len() - vx_it0.pos()

@fn several_files::spawn
@captures arch: Arch, sender: Sender<Option<JobItem>>, receiver: Receiver<Option<JobItem>>, results: Arc<Mutex<HashMap<String, ObjectInfo>>>, counter: Arc<AtomicUsize>, num_jobs: usize, output: Output, check_cfi: bool
@sig pub fn several_files_spawn(arch: VxArch, sender: VxSender, receiver: VxReceiver, results: VxShared, counter: VxCounter, num_jobs: usize, output: Output, check_cfi: bool, vx_w: &mut VxWorld) -> (r: VxResult<()>)
@dropglue PoisonOnFailure
@props C18 C23
@spec
    requires num_jobs == old(vx_w).n(), num_jobs > 0, output == old(vx_w).output(), check_cfi == old(vx_w).check_cfi(), arch == old(vx_w).arch(), old(vx_w).st() is Idle, all_dumpable(), may_fill_caches()
    ensures final(vx_w).same_run(old(vx_w)), match r { Ok(_) => final(vx_w).st() is Done, Err(_) => end_marks(final(vx_w).st()) >= final(vx_w).n() }
@at before let res = consumer
    // a panic of consumer leaves the guard armed
    proof { assert(guard.armed); }

@fn several_files
@props C18
@spec
    requires all_dumpable(), may_fill_caches(), old(vx_w).output() == config.output, old(vx_w).check_cfi() == config.check_cfi, old(vx_w).mapping() == mappings_given(config.mapping_var, config.mapping_src, config.mapping_dest, config.mapping_file),
        arch_named(config.arch@) is Some ==> old(vx_w).arch() == arch_named(config.arch@)->0,
        old(vx_w).st() matches WSt::Main(s) && s == (MSt { files: s.files, inlines: config.emit_inlines, n: 0, spawned: 0, sent: 0, joined: 0, failed: false }) && s.files.len() == filenames@.len()
            && (forall|i: int| 0 <= i < s.files.len() ==> #[trigger] s.files[i] == filenames@[i]@ && name_of(s.files[i]) is Some),
    ensures final(vx_w).same_run(old(vx_w)),
        r is Ok ==> (final(vx_w).st() matches WSt::Main(s) && s.files == old(vx_w).st()->Main_0.files && s.sent == s.files.len() && s.joined == s.spawned && s.spawned == s.n && !s.failed && (s.files.len() > 0 ==> s.spawned > 0)),
@loop 0
    invariant config.output == vx_w.output(), config.check_cfi == vx_w.check_cfi(), vx_w.same_run(old(vx_w)), old(vx_w).st() is Main, vx_w.st() is Main,
        vx_w.st()->Main_0.files == old(vx_w).st()->Main_0.files, vx_w.st()->Main_0.inlines == config.emit_inlines, vx_w.st()->Main_0.files.len() == filenames@.len(),
        vx_it0.ok(), vx_it0.seq().len() == num_jobs, vx_w.st()->Main_0.spawned == vx_it0.pos(), vx_it0.pos() > 0 ==> vx_w.st()->Main_0.n == num_jobs, vx_it0.pos() == 0 ==> vx_w.st()->Main_0.n == 0,
        receivers@.len() == vx_it0.pos(), vx_w.st()->Main_0.sent == 0, vx_w.st()->Main_0.joined == 0, !vx_w.st()->Main_0.failed,
        sender.chan() == receiver.chan(), results.starts_empty(), counter.start() == filenames@.len(), arch == vx_w.arch(),
    decreases vx_it0.seq().len() - vx_it0.pos()
@loop 1
    invariant config.output == vx_w.output(), config.check_cfi == vx_w.check_cfi(), vx_w.same_run(old(vx_w)), old(vx_w).st() is Main, vx_w.st() is Main,
        vx_w.st()->Main_0.files == old(vx_w).st()->Main_0.files, vx_w.st()->Main_0.inlines == config.emit_inlines, vx_w.st()->Main_0.files.len() == filenames@.len(),
        vx_it1.ok(), vx_it1.seq().len() == filenames@.len(), forall|i: int| 0 <= i < filenames@.len() ==> *(#[trigger] vx_it1.seq()[i]) == filenames@[i],
        forall|i: int| 0 <= i < filenames@.len() ==> #[trigger] vx_w.st()->Main_0.files[i] == filenames@[i]@ && name_of(vx_w.st()->Main_0.files[i]) is Some,
        vx_w.st()->Main_0.sent == vx_it1.pos(), vx_w.st()->Main_0.spawned == num_jobs, vx_w.st()->Main_0.n == num_jobs, vx_w.st()->Main_0.joined == 0, !vx_w.st()->Main_0.failed, file_mapping == vx_w.mapping(),
    decreases vx_it1.seq().len() - vx_it1.pos()
@loop 2
    invariant config.output == vx_w.output(), config.check_cfi == vx_w.check_cfi(), vx_w.same_run(old(vx_w)), old(vx_w).st() is Main, vx_w.st() is Main,
        vx_w.st()->Main_0.files == old(vx_w).st()->Main_0.files, vx_w.st()->Main_0.inlines == config.emit_inlines, vx_w.st()->Main_0.files.len() == filenames@.len(),
        vx_it2.ok(), vx_it2.seq().len() == num_jobs, vx_w.st()->Main_0.joined == vx_it2.pos(), vx_w.st()->Main_0.spawned == num_jobs, vx_w.st()->Main_0.n == num_jobs, vx_w.st()->Main_0.sent == filenames@.len(),
        res is Ok ==> !vx_w.st()->Main_0.failed,
    decreases vx_it2.seq().len() - vx_it2.pos()
@at loopstart 1
    proof {
        let k = vx_it1.pos() - 1;
        assert(vx_w.st()->Main_0.files[k] == filenames@[k]@);
        assert(*vx_it1.seq()[k] == filenames@[k]);
    }
