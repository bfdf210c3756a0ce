# Contracts of src/cache.rs  (C19)
@file src/cache.rs
@const DEFAULT_STORE
@const DEFAULT_USER_AGENT
@struct SymbolServer
@struct Job
@raw
/// C19: a server and its local cache
pub struct ServerV { pub cache: Option<Seq<char>>, pub server: Seq<char> }
impl VxView for SymbolServer { type V = ServerV; closed spec fn vv(&self) -> ServerV { ServerV { cache: match self.cache { Some(c) => Some(c@), None => None }, server: self.server@ } } }
impl<'a> VxView for &'a SymbolServer { type V = ServerV; open spec fn vv(&self) -> ServerV { (**self).vv() } }
pub open spec fn default_store() -> Seq<char> { "https://msdl.microsoft.com/download/symbols"@ }
/// a leading ~ is the home directory
pub open spec fn at_home(p: Seq<char>) -> Seq<char> {
    match home() { Some(h) => if p.len() > 0 && p[0] == '~' { h + p.subrange(1, p.len() as int) } else { p }, None => p }
}
pub open spec fn star() -> spec_fn(char) -> bool { |c: char| c == '*' }
pub open spec fn entry_end() -> spec_fn(char) -> bool { |c: char| c == ';' || c == '\n' }
pub open spec fn part(e: Seq<char>, i: int) -> Seq<char> { trimmed(pieces(e, star())[i]) }
/// C19: what an entry of the symbol path stands for
pub open spec fn srv_of(e: Seq<char>) -> Option<ServerV> {
    let n = pieces(e, star()).len();
    if lower(part(e, 0)) != "srv"@ { None }
    else if n == 1 { Some(ServerV { cache: None, server: default_store() }) }
    else if n == 2 { Some(ServerV { cache: None, server: part(e, 1) }) }
    else if n == 3 { Some(ServerV { cache: Some(at_home(part(e, 1))), server: part(e, 2) }) }
    else { None }
}
pub open spec fn srv_fn() -> spec_fn(Seq<char>) -> Option<ServerV> { |e: Seq<char>| srv_of(e) }
/// C19: the servers of a symbol path
pub open spec fn sympath(s: Seq<char>) -> Seq<ServerV> { kept_of(pieces(s, entry_end()), srv_fn()) }
pub open spec fn some_servers(s: Seq<ServerV>) -> Option<Seq<ServerV>> { if s.len() == 0 { None } else { Some(s) } }
pub open spec fn vservers(o: Option<Vec<SymbolServer>>) -> Option<Seq<ServerV>> { match o { Some(v) => Some(views(v@)), None => None } }
/// the configuration file in the home directory
pub open spec fn conf_path(h: Seq<char>) -> Seq<char> { path_join(path_join(h, ".dump_syms"@), "config"@) }
pub open spec fn configured() -> Option<Seq<ServerV>> {
    match home() { Some(h) => if fs_exists(conf_path(h)) { match from_utf8(raw_bytes(conf_path(h))) { Some(t) => some_servers(sympath(t)), None => None } } else { None }, None => None }
}
/// where a cache has a file
pub open spec fn cache_at(c: Seq<char>, base: Seq<char>, id: Seq<char>, name: Seq<char>) -> Seq<char> { path_join(path_join(path_join(c, base), id), name) }
pub open spec fn cache_fn() -> spec_fn(ServerV) -> Option<Seq<char>> { |s: ServerV| s.cache }
pub open spec fn caches(s: Seq<ServerV>) -> Seq<Seq<char>> { kept_of(s, cache_fn()) }
pub open spec fn first_cache(c: Seq<Seq<char>>, k: int, base: Seq<char>, id: Seq<char>, name: Seq<char>) -> bool {
    0 <= k < c.len() && fs_exists(cache_at(c[k], base, id, name)) && forall|j: int| 0 <= j < k ==> !fs_exists(cache_at(#[trigger] c[j], base, id, name))
}
pub open spec fn in_no_cache(c: Seq<Seq<char>>, base: Seq<char>, id: Seq<char>, name: Seq<char>) -> bool {
    forall|j: int| 0 <= j < c.len() ==> !fs_exists(cache_at(#[trigger] c[j], base, id, name))
}
/// an answer that is a file
pub open spec fn not_found() -> Seq<u8> { seq![0x53u8, 0x79u8, 0x6du8, 0x62u8, 0x6fu8, 0x6cu8, 0x20u8, 0x4eu8, 0x6fu8, 0x74u8, 0x20u8, 0x46u8, 0x6fu8, 0x75u8, 0x6eu8, 0x64u8] }
pub open spec fn is_answer(b: Seq<u8>) -> bool { b.len() > 0 && !(b.len() >= 16 && b.subrange(0, 16) == not_found()) }
/// C19: what is requested, and where it is cached
pub struct JobV { pub cache: Option<Seq<char>>, pub url: Seq<char> }
impl VxView for Job { type V = JobV; closed spec fn vv(&self) -> JobV { JobV { cache: match self.cache { Some(c) => Some(c.text()), None => None }, url: self.url@ } } }
pub open spec fn slash(a: Seq<char>, b: Seq<char>) -> Seq<char> { a + "/"@ + b }
pub open spec fn url_of(s: Seq<char>, name: Seq<char>, id: Seq<char>, last: Seq<char>) -> Seq<char> { slash(slash(slash(s, name), id), last) }
pub open spec fn job_path(s: ServerV, id: Seq<char>, base: Seq<char>, name: Seq<char>) -> Option<Seq<char>> { match s.cache { Some(c) => Some(cache_at(c, base, id, name)), None => None } }
pub open spec fn stem(name: Seq<char>) -> Seq<char> { if name.len() == 0 { name } else { name.drop_last() } }
pub open spec fn server_jobs(s: ServerV, id: Seq<char>, base: Seq<char>, name: Seq<char>) -> Seq<JobV> {
    let j = JobV { cache: job_path(s, id, base, name), url: url_of(s.server, name, id, name) };
    if name.len() > 0 && name.last() == '_' { seq![j] } else { seq![j, JobV { cache: job_path(s, id, base, name), url: url_of(s.server, name, id, stem(name)) + "_"@ }] }
}
pub open spec fn jobs_of(s: Seq<ServerV>, n: int, id: Seq<char>, base: Seq<char>, name: Seq<char>) -> Seq<JobV>
    decreases n
{ if n <= 0 { Seq::empty() } else { jobs_of(s, n - 1, id, base, name) + server_jobs(s[n - 1], id, base, name) } }
/// a job that may cache its file
pub open spec fn may_cache(j: JobV) -> bool { j.cache is Some && is_answer(body(j.url)) ==> may_create(j.cache->0) }
/// the answer of one of the servers that has the file
pub open spec fn fetched(j: Seq<JobV>, k: int, b: Seq<u8>) -> bool {
    0 <= k < j.len() && url_ok(j[k].url) && b == body(j[k].url) && is_answer(b) && (j[k].cache is Some ==> stored(j[k].cache->0, b))
}
pub open spec fn got(j: Seq<JobV>, b: Seq<u8>) -> bool { exists|k: int| #[trigger] fetched(j, k, b) }
/// no server has the file, or one that has it gives no file when asked for it
pub open spec fn refused(j: Seq<JobV>, k: int) -> bool { 0 <= k < j.len() && url_ok(j[k].url) && (get_fails(j[k].url) || !is_answer(body(j[k].url))) }
pub open spec fn no_server_gave(j: Seq<JobV>) -> bool { (forall|k: int| 0 <= k < j.len() ==> !url_ok((#[trigger] j[k]).url)) || (exists|k: int| #[trigger] refused(j, k)) }
/// C19: the first cache that has the file, and only otherwise the answer of a server
pub open spec fn looked_up(s: Seq<ServerV>, id: Seq<char>, name: Seq<char>, r: Option<Seq<u8>>) -> bool {
    let c = caches(s); let base = base_text(name); let jobs = jobs_of(s, s.len() as int, id, base, name);
    if in_no_cache(c, base, id, name) { if r is Some { exists|b: Seq<u8>| #[trigger] got(jobs, b) && uncab(b, name) == r } else { no_server_gave(jobs) } }
    else { exists|k: int| #[trigger] first_cache(c, k, base, id, name) && r == Some(content_of(cache_at(c[k], base, id, name))) }
}
pub proof fn lemma_jobs(s: Seq<ServerV>, n: int, id: Seq<char>, base: Seq<char>, name: Seq<char>, k: int)
    requires 0 <= n <= s.len(), 0 <= k < jobs_of(s, n, id, base, name).len()
    ensures jobs_of(s, n, id, base, name)[k].cache matches Some(p) ==> exists|c: Seq<char>| p == #[trigger] cache_at(c, base, id, name)
    decreases n
{
    if n > 0 {
        let a = jobs_of(s, n - 1, id, base, name);
        if k < a.len() { lemma_jobs(s, n - 1, id, base, name, k); }
        else {
            assert(jobs_of(s, n, id, base, name)[k] == server_jobs(s[n - 1], id, base, name)[k - a.len()]);
            if s[n - 1].cache is Some { let c = s[n - 1].cache->0; assert(job_path(s[n - 1], id, base, name) == Some(cache_at(c, base, id, name))); }
        }
    }
}
pub open spec fn bytes_of(o: Option<Vec<u8>>) -> Option<Seq<u8>> { match o { Some(v) => Some(v@), None => None } }

@fn Job::new
@self Job
@props C19
@spec
    ensures r is Ok == url_valid(url@), r is Ok ==> (r->Ok_0).vv() == (JobV { cache: match cache { Some(c) => Some(c.text()), None => None }, url: url@ })

@fn correct_path
@props C19
@spec
    ensures r@ == at_home(path@)
@at start
    proof { assert forall|a: Seq<char>| #[trigger] (Seq::<char>::empty() + a) == a by { assert(Seq::<char>::empty() + a =~= a); } }

@fn parse_srv
@props C19
@spec
    ensures oview(r) == srv_of(path@)
@clo 0 p: &str ->> (y: &str)
    ensures y@ == trimmed(p@)
@at start
    proof { lemma_pieces_same(path@, seps('*'), star()); lemma_pieces_len(path@, star()); }

@fn parse_sympath
@props C19
@nclos 0
@spec
    ensures views(r@) == sympath(path@)
@at start
    proof { lemma_pieces_same(path@, seps([';', '\n']), entry_end()); }

@fn read_config_from_str
@props C19
@spec
    ensures vservers(r) == some_servers(sympath(s@))

@fn read_config
@props C19
@maypanic
@spec
    ensures vservers(r) == configured()

@fn get_sym_servers
@props C19
@spec
    ensures vservers(r) == (match symbol_server { Some(s) => some_servers(sympath(s@)), None => configured() })

@fn copy_in_cache
@fntype &[u8] => &[u8]
@props C19
@maypanic
@spec
    requires is_answer(data@) && path is Some ==> may_create((path->0).text())
    ensures r == is_answer(data@), r && path is Some ==> stored((path->0).text(), data@)

@fn search_in_cache
@props C19
@spec
    requires base.utf8()
    ensures match r {
        Some(p) => p.utf8() && exists|k: int| #[trigger] first_cache(caches(views(servers@)), k, base.text(), id@, file_name@) && p.text() == cache_at(caches(views(servers@))[k], base.text(), id@, file_name@),
        None => in_no_cache(caches(views(servers@)), base.text(), id@, file_name@) }
@clo 0 x: &SymbolServer ->> (y: Option<&String>)
    ensures oview(y) == x.vv().cache
@at start
    proof {
        assert forall|s: Seq<&SymbolServer>| s.len() == servers@.len() && (forall|i: int| 0 <= i < s.len() ==> *(#[trigger] s[i]) == servers@[i]) implies #[trigger] views(s.subrange(0, s.len() as int)) == views(servers@) by {
            assert(views(s.subrange(0, s.len() as int)) =~= views(servers@));
        }
    }
@at loopstart 0
    proof {
        let k = vx_it0.pos() - 1;
        assert(views(vx_it0.seq())[k] == vx_it0.seq()[k].vv());
        assert(caches(views(servers@))[k] == vx_it0.seq()[k]@);
        assert(fs_exists(cache_at(caches(views(servers@))[k], base.text(), id@, file_name@)) ==> first_cache(caches(views(servers@)), k, base.text(), id@, file_name@));
    }
@loop 0
    invariant base.utf8(), vx_it0.ok(), views(vx_it0.seq()) == caches(views(servers@)),
        forall|j: int| 0 <= j < vx_it0.pos() ==> !fs_exists(cache_at(#[trigger] caches(views(servers@))[j], base.text(), id@, file_name@)),
    decreases vx_it0.seq().len() - vx_it0.pos()

@fn get_jobs
@props C19
@maypanic
@spec
    ensures views(r@) == jobs_of(views(servers@), servers@.len() as int, id@, base.text(), file_name@)
@unfold
@loop 0
    invariant vx_it0.ok(), vx_it0.seq().len() == servers@.len(), forall|i: int| 0 <= i < vx_it0.seq().len() ==> *(#[trigger] vx_it0.seq()[i]) == servers@[i],
        views(jobs@) == jobs_of(views(servers@), vx_it0.pos(), id@, base.text(), file_name@),
    decreases vx_it0.seq().len() - vx_it0.pos()
@at loopstart 0
    let ghost vx_j = jobs@;
    proof {
        assert(server.vv() == views(servers@)[vx_it0.pos() - 1]);
        reveal_strlit("_"); reveal_strlit("/");
        assert forall|a: Seq<char>| #[trigger] (Seq::<char>::empty() + a) == a by { assert(Seq::<char>::empty() + a =~= a); }
        assert(stem(file_name@).subrange(0, stem(file_name@).len() as int) =~= stem(file_name@));
        assert forall|a: Job| #[trigger] views(vx_j.push(a)) == views(vx_j).push(a.vv()) by { assert(views(vx_j.push(a)) =~= views(vx_j).push(a.vv())); }
        assert forall|a: Job, b: Job| #[trigger] views(vx_j.push(a).push(b)) == views(vx_j) + seq![a.vv(), b.vv()] by { assert(views(vx_j.push(a).push(b)) =~= views(vx_j) + seq![a.vv(), b.vv()]); }
        assert forall|a: JobV| #[trigger] views(vx_j).push(a) == views(vx_j) + seq![a] by { assert(views(vx_j).push(a) =~= views(vx_j) + seq![a]); }
    }

@fn fetch_data
@props C19
@spec
    requires forall|k: int| 0 <= k < jobs@.len() ==> may_cache(#[trigger] views(jobs@)[k])
    ensures match r { Some(v) => got(views(jobs@), v@), None => no_server_gave(views(jobs@)) }
@at start
    let ghost vx_jobs = views(jobs@);
    proof {
        assert forall|a: Seq<u8>| #[trigger] (Seq::<u8>::empty() + a) == a by { assert(Seq::<u8>::empty() + a =~= a); }
        assert forall|j: Job, k: int| 0 <= k < vx_jobs.len() && j.vv() == #[trigger] vx_jobs[k] implies #[trigger] may_cache(j.vv()) by { }
        assert forall|k: int| 0 <= k < vx_jobs.len() && url_ok(vx_jobs[k].url) && is_answer(body((#[trigger] vx_jobs[k]).url)) && (vx_jobs[k].cache is Some ==> stored(vx_jobs[k].cache->0, body(vx_jobs[k].url))) implies got(vx_jobs, body(vx_jobs[k].url)) by { assert(fetched(vx_jobs, k, body(vx_jobs[k].url))); }
        assert forall|k: int| 0 <= k < vx_jobs.len() && url_ok((#[trigger] vx_jobs[k]).url) && (get_fails(vx_jobs[k].url) || !is_answer(body(vx_jobs[k].url))) implies no_server_gave(vx_jobs) by { assert(refused(vx_jobs, k)); }
    }

@fn search_file
@props C19 C20 C24
@maypanic
@spec
    requires sym_servers is Some ==> forall|c: Seq<char>| may_create(#[trigger] cache_at(c, base_text(file_name@), id@, file_name@))
    ensures r.1@ == file_name@,
        file_name@.len() == 0 || sym_servers is None ==> r.0 is None,
        file_name@.len() > 0 && sym_servers is Some ==> looked_up(views((sym_servers->0)@), id@, file_name@, bytes_of(r.0))
@at start
    proof {
        if sym_servers is Some {
            let s = views((sym_servers->0)@);
            let j = jobs_of(s, s.len() as int, id@, base_text(file_name@), file_name@);
            assert forall|k: int| 0 <= k < j.len() implies may_cache(#[trigger] j[k]) by { lemma_jobs(s, s.len() as int, id@, base_text(file_name@), file_name@, k); }
        }
    }
