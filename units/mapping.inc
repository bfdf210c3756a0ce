# Contracts of src/mapping.rs  (C14, C15)
@file src/mapping.rs
@path serde_json::from_slice => vx_json
@path Regex => VxRegex
@path Regex::new => vx_regex
@path Sha512::digest => vx_sha512
@path HashSet => VxSet
@path HashSet::default => vx_set_default
@path Mutex::new => vx_cache_new
@typemap Mutex<HashMap<String,String>> => VxCache
@method extend_from_slice captures splitn map_or lock drain_all
@raw
// ---------------------------------------------------------------- dependencies (assumed)
#[verifier::external_body]
pub struct VxRegex { _p: u8 }
pub uninterp spec fn re_valid(re: Seq<char>) -> bool;
/// the groups of the first match of re in s
pub uninterp spec fn re_groups(re: Seq<char>, s: Seq<char>) -> Option<spec_fn(usize) -> Option<Seq<char>>>;
#[verifier::external_body]
pub fn vx_regex(re: &str) -> (r: VxResult<VxRegex>)
    ensures match r { Ok(x) => re_valid(re@) && x.re() == re@, Err(_) => !re_valid(re@) }
{ unimplemented!() }
#[verifier::external_body]
pub struct VxCaps { _p: u8 }
#[verifier::external_body]
pub struct VxMatch { _p: u8 }
impl VxRegex {
    pub uninterp spec fn re(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn vx_captures(&self, s: &str) -> (r: Option<VxCaps>)
        ensures match r { Some(c) => re_groups(self.re(), s@) == Some(c.groups()), None => re_groups(self.re(), s@) is None }
    { unimplemented!() }
}
impl VxCaps {
    pub uninterp spec fn groups(&self) -> spec_fn(usize) -> Option<Seq<char>>;
    #[verifier::external_body]
    pub fn vx_get(&self, i: usize) -> (r: Option<VxMatch>)
        ensures match r { Some(m) => (self.groups())(i) == Some(m.text()), None => (self.groups())(i) is None }
    { unimplemented!() }
}
impl VxMatch {
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn vx_as_str(&self) -> (r: &str) ensures r@ == self.text() { unimplemented!() }
}
#[verifier::external_body]
pub struct VxDigest { _p: u8 }
pub uninterp spec fn sha512_hex(b: Seq<u8>) -> Seq<char>;
pub uninterp spec fn sha512_hex_up(b: Seq<u8>) -> Seq<char>;
impl VxDigest { pub uninterp spec fn of(&self) -> Seq<u8>; }
impl VxHex for VxDigest { open spec fn vx_hex(&self) -> Seq<char> { sha512_hex(self.of()) } open spec fn vx_hex_up(&self) -> Seq<char> { sha512_hex_up(self.of()) } }
#[verifier::external_body]
pub fn vx_sha512(b: Vec<u8>) -> (r: VxDigest) ensures r.of() == b@ { unimplemented!() }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct VxSet<K> { _p: core::marker::PhantomData<K> }
impl<K: VxKey> View for VxSet<K> { type V = Set<K::KV>; uninterp spec fn view(&self) -> Set<K::KV>; }
impl<K: VxKey> VxSet<K> {
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Set::<K::KV>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_contains<Q: VxKey<KV = K::KV> + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self@.contains(k.kv()) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_set_default<K: VxKey>() -> (r: VxSet<K>) ensures r@ == Set::<K::KV>::empty() { unimplemented!() }
/// the table of paths already mapped, shared by all threads: `inv` is its monitor invariant
#[verifier::external_body]
pub struct VxCache { _p: u8 }
#[verifier::external_body]
pub struct VxCacheGuard { _p: u8 }
#[verifier::external_body]
pub fn vx_cache_new(m: VxMap<String, String>) -> (r: VxCache) requires m@ == Map::<Seq<char>, String>::empty() { unimplemented!() }
impl VxCache {
    pub uninterp spec fn inv(&self, k: Seq<char>, v: Seq<char>) -> bool;
    #[verifier::external_body]
    pub fn vx_lock(&self) -> (r: VxResult<VxCacheGuard>)
        ensures r is Ok, forall|k: Seq<char>, v: Seq<char>| #[trigger] (r->Ok_0).inv(k, v) == self.inv(k, v)
    { unimplemented!() }
}
impl VxCacheGuard {
    pub uninterp spec fn inv(&self, k: Seq<char>, v: Seq<char>) -> bool;
    #[verifier::external_body]
    pub fn vx_get(&self, k: &str) -> (r: Option<&String>)
        ensures r is Some ==> self.inv(k@, (r->0)@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_insert(&mut self, k: String, v: String) -> (r: Option<String>)
        requires old(self).inv(k@, v@)
        ensures forall|k: Seq<char>, v: Seq<char>| #[trigger] final(self).inv(k, v) == old(self).inv(k, v)
    { unimplemented!() }
}
impl<'a, K: VxKey, V> VxIntoIter<(&'a K, &'a V)> for &'a VxMap<K, V> {
    open spec fn vx_items(&self) -> Seq<(&'a K, &'a V)> { Seq::new(self.key_seq().len(), |i: int| (&self.key_seq()[i], &self@[self.key_seq()[i].kv()])) }
    #[verifier::external_body] fn vx_into_iter(self) -> (r: VxIter<(&'a K, &'a V)>) { unimplemented!() }
}
pub trait VxDrain<T> { spec fn drv(&self) -> Seq<T>; fn vx_drain_all(&mut self) -> (r: VxIter<T>) ensures r.pos() == 0, r.seq() == old(self).drv(), final(self).drv() == Seq::<T>::empty(); }
impl<T> VxDrain<T> for Vec<T> {
    open spec fn drv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_drain_all(&mut self) -> (r: VxIter<T>) { unimplemented!() }
}
pub trait VxExtendSlice<T> { spec fn esv(&self) -> Seq<T>; fn vx_extend_from_slice(&mut self, s: &[T]) ensures final(self).esv() == old(self).esv() + s@; }
impl<T> VxExtendSlice<T> for Vec<T> {
    open spec fn esv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_extend_from_slice(&mut self, s: &[T]) { unimplemented!() }
}
pub trait VxMapOr<T> { spec fn mov(&self) -> Option<T>; fn vx_map_or<U, F: FnOnce(T) -> U>(self, d: U, f: F) -> (r: U)
    requires self.mov() is Some ==> f.requires((self.mov()->0,))
    ensures match self.mov() { Some(x) => f.ensures((x,), r), None => r == d }; }
impl<T> VxMapOr<T> for Option<T> {
    open spec fn mov(&self) -> Option<T> { *self }
    #[verifier::external_body] fn vx_map_or<U, F: FnOnce(T) -> U>(self, d: U, f: F) -> (r: U) { unimplemented!() }
}
/// splitn(2, p): cut at the first occurrence
pub open spec fn split2<P: VxPat>(p: P, s: Seq<char>, r: Seq<&str>) -> bool {
    if found(p, s) { r.len() == 2 && exists|k: int| #[trigger] first_cut(p, s, k, r[0]@, r[1]@) } else { r.len() == 1 && r[0]@ == s }
}
pub trait VxSplitn { spec fn snv(&self) -> Seq<char>; fn vx_splitn<P: VxPat>(&self, n: usize, p: P) -> (r: VxIter<&str>)
    ensures r.pos() == 0, n == 2 ==> split2(p, self.snv(), r.seq()); }
impl VxSplitn for str {
    open spec fn snv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_splitn<P: VxPat>(&self, n: usize, p: P) -> (r: VxIter<&str>) { unimplemented!() }
}
@enum ActionKind
@struct Action
@struct PathMappingGenerator
@struct Mapping
@struct Mappings
@struct PathMappings
@raw
// ---------------------------------------------------------------- templates (C14)
pub const OPEN: u8 = 123;
pub const CLOSE: u8 = 125;
/// the '{' that a '}' at position n would close: the last brace before n, if it is a '{'
pub open spec fn open_at(b: Seq<u8>, n: int) -> Option<int>
    decreases n
{
    if n <= 0 { None } else if b[n - 1] == 123u8 { Some(n - 1) } else if b[n - 1] == 125u8 { None } else { open_at(b, n - 1) }
}
/// {...} of the template that ends at position j (exclusive of the '}')
pub open spec fn is_hole(b: Seq<u8>, j: int) -> bool { 0 <= j < b.len() && b[j] == 125u8 && open_at(b, j) is Some }
pub open spec fn hole_name(b: Seq<u8>, j: int) -> Seq<char> { text_of(b.subrange((open_at(b, j)->0) + 1, j)) }
/// what {name} stands for
pub open spec fn kind_of(name: Seq<char>, vars: Map<Seq<char>, String>) -> Option<ActionKind> {
    if name == "DIGEST"@ { Some(ActionKind::Digest(true)) }
    else if name == "digest"@ { Some(ActionKind::Digest(false)) }
    else if vars.contains_key(name) { Some(ActionKind::MappingVar(vars[name])) }
    else { match parsed_usize(name) { Some(n) => Some(ActionKind::Group(n)), None => None } }
}
/// every {...} of the template (before n) is known
pub open spec fn holes_known(b: Seq<u8>, n: int, vars: Map<Seq<char>, String>) -> bool {
    forall|j: int| 0 <= j < n && #[trigger] is_hole(b, j) ==> kind_of(hole_name(b, j), vars) is Some
}
pub enum Tok { Byte(u8), Hole(ActionKind) }
pub open spec fn bytes_toks(b: Seq<u8>) -> Seq<Tok> { Seq::new(b.len(), |i: int| Tok::Byte(b[i])) }
/// the template as plain bytes and holes
pub open spec fn toks(b: Seq<u8>, n: int, vars: Map<Seq<char>, String>) -> Seq<Tok>
    decreases n
{
    if n <= 0 { Seq::empty() }
    else if is_hole(b, n - 1) && 0 <= (open_at(b, n - 1)->0) < n {
        toks(b, open_at(b, n - 1)->0, vars).push(Tok::Hole(kind_of(hole_name(b, n - 1), vars)->0))
    } else { toks(b, n - 1, vars).push(Tok::Byte(b[n - 1])) }
}
pub open spec fn act_ok(m: Seq<u8>, a: Action) -> bool { a.start <= a.end <= m.len() && is_utf8(m.subrange(a.start as int, a.end as int)) }
/// a compiled template read back
pub open spec fn act_toks(m: Seq<u8>, a: Seq<Action>) -> Seq<Tok>
    decreases a.len()
{
    if a.len() == 0 { Seq::empty() } else {
        let t = act_toks(m, a.drop_last()) + bytes_toks(m.subrange(a.last().start as int, a.last().end as int));
        if a.last().kind is None { t } else { t.push(Tok::Hole(a.last().kind)) }
    }
}
pub open spec fn gen_ok(g: PathMappingGenerator) -> bool { g.mapping@.len() * 3 <= usize::MAX && forall|i: int| 0 <= i < g.actions@.len() ==> act_ok(g.mapping@, #[trigger] g.actions@[i]) }
pub open spec fn gen_toks(g: PathMappingGenerator) -> Seq<Tok> { act_toks(g.mapping@, g.actions@) }
/// what a hole or a template expands to
pub enum Val { Text(Seq<u8>), NoGroup, Unreadable }
pub open spec fn digest_text(path: Seq<char>, upper: bool) -> Option<Seq<char>> {
    match file_bytes(path) { Some(b) => Some(if upper { sha512_hex_up(b) } else { sha512_hex(b) }), None => None }
}
pub open spec fn kind_val(k: ActionKind, groups: spec_fn(usize) -> Option<Seq<char>>, path: Seq<char>) -> Val {
    match k {
        ActionKind::Group(n) => (match groups(n) { Some(t) => Val::Text(utf8(t)), None => Val::NoGroup }),
        ActionKind::MappingVar(v) => Val::Text(utf8(v@)),
        ActionKind::Digest(u) => (match digest_text(path, u) { Some(t) => Val::Text(utf8(t)), None => Val::Unreadable }),
        ActionKind::None => Val::Text(Seq::empty()),
    }
}
pub open spec fn val_cat(a: Val, b: Val) -> Val {
    match (a, b) { (Val::Text(x), Val::Text(y)) => Val::Text(x + y), (Val::Text(_), _) => b, _ => a }
}
pub open spec fn expand(t: Seq<Tok>, groups: spec_fn(usize) -> Option<Seq<char>>, path: Seq<char>) -> Val
    decreases t.len()
{
    if t.len() == 0 { Val::Text(Seq::empty()) } else {
        val_cat(expand(t.drop_last(), groups, path), match t.last() { Tok::Byte(x) => Val::Text(seq![x]), Tok::Hole(k) => kind_val(k, groups, path) })
    }
}
/// C14/C15: what one mapping makes of a path
pub open spec fn applied(g: PathMappingGenerator, path: Seq<char>) -> Val {
    if g.files@ == Set::<Seq<char>>::empty() || g.files@.contains(path) {
        match re_groups(g.re.re(), path) { Some(gr) => expand(gen_toks(g), gr, path), None => Val::NoGroup }
    } else { Val::NoGroup }
}
/// g is the mapping `re => template` restricted to `files`
pub open spec fn gen_is(g: PathMappingGenerator, re: Seq<char>, template: Seq<char>, vars: Map<Seq<char>, String>, files: Set<Seq<char>>) -> bool {
    gen_ok(g) && g.re.re() == re && g.files@ == files && gen_toks(g) == toks(utf8(template), utf8(template).len() as int, vars)
}
pub open spec fn loadable(re: Seq<char>, template: Seq<char>, vars: Map<Seq<char>, String>) -> bool {
    re_valid(re) && holes_known(utf8(template), utf8(template).len() as int, vars)
}

pub proof fn lemma_open_at(b: Seq<u8>, n: int)
    requires 0 <= n <= b.len()
    ensures open_at(b, n) matches Some(p) ==> 0 <= p < n && b[p] == 123u8 && forall|i: int| p < i < n ==> #[trigger] b[i] != 123u8 && b[i] != 125u8
    decreases n
{
    if n > 0 && b[n - 1] != 123u8 && b[n - 1] != 125u8 { lemma_open_at(b, n - 1); }
}
/// plain text from p to n
pub proof fn lemma_toks_plain(b: Seq<u8>, p: int, n: int, vars: Map<Seq<char>, String>)
    requires 0 <= p <= n <= b.len(), forall|j: int| p <= j < n ==> !#[trigger] is_hole(b, j)
    ensures toks(b, n, vars) == toks(b, p, vars) + bytes_toks(b.subrange(p, n))
    decreases n - p
{
    if p == n { assert(toks(b, n, vars) =~= toks(b, p, vars) + bytes_toks(b.subrange(p, n))); }
    else {
        lemma_toks_plain(b, p, n - 1, vars);
        assert(!is_hole(b, n - 1));
        assert(bytes_toks(b.subrange(p, n)) =~= bytes_toks(b.subrange(p, n - 1)).push(Tok::Byte(b[n - 1])));
        assert(toks(b, n, vars) =~= toks(b, p, vars) + bytes_toks(b.subrange(p, n)));
    }
}
pub proof fn lemma_expand_bytes(t: Seq<Tok>, b: Seq<u8>, groups: spec_fn(usize) -> Option<Seq<char>>, path: Seq<char>)
    ensures expand(t + bytes_toks(b), groups, path) == val_cat(expand(t, groups, path), Val::Text(b))
    decreases b.len()
{
    if b.len() == 0 {
        assert(t + bytes_toks(b) =~= t);
        assert(expand(t, groups, path) matches Val::Text(x) ==> x + b =~= x);
    } else {
        lemma_expand_bytes(t, b.drop_last(), groups, path);
        let u = t + bytes_toks(b);
        assert(u.drop_last() =~= t + bytes_toks(b.drop_last()));
        assert(u.last() == Tok::Byte(b.last()));
        assert(expand(t, groups, path) matches Val::Text(x) ==> (x + b.drop_last()) + seq![b.last()] =~= x + b);
    }
}
/// one action more
pub proof fn lemma_act_step(m: Seq<u8>, a: Seq<Action>, i: int, groups: spec_fn(usize) -> Option<Seq<char>>, path: Seq<char>)
    requires 0 <= i < a.len()
    ensures expand(act_toks(m, a.subrange(0, i + 1)), groups, path)
        == val_cat(val_cat(expand(act_toks(m, a.subrange(0, i)), groups, path), Val::Text(m.subrange(a[i].start as int, a[i].end as int))), kind_val(a[i].kind, groups, path))
{
    let p = a.subrange(0, i + 1);
    assert(p.drop_last() =~= a.subrange(0, i));
    assert(p.last() == a[i]);
    let b = m.subrange(a[i].start as int, a[i].end as int);
    let t = act_toks(m, a.subrange(0, i));
    lemma_expand_bytes(t, b, groups, path);
    let u = t + bytes_toks(b);
    if a[i].kind is None { assert(expand(u, groups, path) matches Val::Text(x) ==> x + Seq::<u8>::empty() =~= x); }
    else { assert(u.push(Tok::Hole(a[i].kind)).drop_last() =~= u); }
}
/// a failure is not repaired by what follows
pub proof fn lemma_act_fail(m: Seq<u8>, a: Seq<Action>, i: int, n: int, groups: spec_fn(usize) -> Option<Seq<char>>, path: Seq<char>)
    requires 0 <= i <= n <= a.len(), !(expand(act_toks(m, a.subrange(0, i)), groups, path) is Text)
    ensures expand(act_toks(m, a.subrange(0, n)), groups, path) == expand(act_toks(m, a.subrange(0, i)), groups, path)
    decreases n - i
{
    if i < n { lemma_act_fail(m, a, i, n - 1, groups, path); lemma_act_step(m, a, n - 1, groups, path); }
}
/// UTF-8 between two places where it can be cut
pub open spec fn cut_ok(b: Seq<u8>, i: int) -> bool { 0 <= i <= b.len() && is_utf8(b.subrange(i, b.len() as int)) }
pub proof fn lemma_chunk(t: Seq<char>, i: int, j: int)
    requires cut_ok(utf8(t), i), i <= j < utf8(t).len(), utf8(t)[j] < 0x80
    ensures is_utf8(utf8(t).subrange(i, j)), cut_ok(utf8(t), j + 1)
{
    let b = utf8(t);
    let s = choose|s: Seq<char>| #[trigger] utf8(s) == b.subrange(i, b.len() as int);
    assert(b.subrange(i, b.len() as int)[j - i] == b[j]);
    lemma_utf8_cut(s, j - i);
    assert(utf8(s).subrange(0, j - i) =~= b.subrange(i, j));
    assert(utf8(s).subrange(j - i + 1, utf8(s).len() as int) =~= b.subrange(j + 1, b.len() as int));
}

@fn get_digest
@props C14
@spec
    ensures match r { Ok(s) => digest_text(file.text(), uppercase) == Some(s@), Err(_) => digest_text(file.text(), uppercase) is None }

@fn PathMappingGenerator::new
@props C14
@attr verifier::loop_isolation(false)
@subst std::str::from_utf8(action).unwrap() =>> vx_str_from_utf8(action).unwrap()
@spec
    ensures match r { Ok(g) => re_valid(re@) && holes_known(utf8(mapping@), utf8(mapping@).len() as int, mapping_vars@) && gen_is(g, re@, mapping@, mapping_vars@, files@),
        Err(_) => !loadable(re@, mapping@, mapping_vars@) }
@at start
    let ghost vx_t = mapping@;
    let ghost vx_b = utf8(mapping@);
    let ghost vx_re = re@;
    proof {
        lemma_text_of(vx_t);
        assert(vx_b.subrange(0, vx_b.len() as int) =~= vx_b);
        assert(act_toks(vx_b, Seq::<Action>::empty()) =~= Seq::<Tok>::empty());
    }
@loop 0
    invariant mapping@ == vx_b, vx_b == utf8(vx_t), re_valid(vx_re), vx_it0.ok(), vx_it0.seq().len() == vx_b.len(), vx_b.len() <= usize::MAX,
        forall|k: int| 0 <= k < vx_b.len() ==> (#[trigger] vx_it0.seq()[k]).0 == k && *vx_it0.seq()[k].1 == vx_b[k],
        chunk_start <= vx_it0.pos(), cut_ok(vx_b, chunk_start as int),
        open == (open_at(vx_b, vx_it0.pos()) is Some), open ==> open_at(vx_b, vx_it0.pos()) == Some(chunk_end as int) && chunk_start <= chunk_end,
        forall|j: int| chunk_start <= j < vx_it0.pos() ==> !#[trigger] is_hole(vx_b, j),
        holes_known(vx_b, vx_it0.pos(), mapping_vars@),
        act_toks(vx_b, actions@) == toks(vx_b, chunk_start as int, mapping_vars@),
        forall|k: int| 0 <= k < actions@.len() ==> act_ok(vx_b, #[trigger] actions@[k]),
    decreases vx_it0.seq().len() - vx_it0.pos()
@at loopstart 0
    let ghost vx_i = vx_it0.pos() - 1;
    let ghost vx_n = hole_name(vx_b, vx_i);
    let ghost vx_a = actions@;
    proof {
        assert(i == vx_i && *c == vx_b[vx_i]);
        lemma_open_at(vx_b, vx_i);
        if vx_b[vx_i] == 125u8 && open {
            let p = chunk_end as int;
            assert(is_hole(vx_b, vx_i));
            lemma_chunk(vx_t, chunk_start as int, p);
            lemma_chunk(vx_t, p + 1, vx_i);
            let nb = vx_b.subrange(p + 1, vx_i);
            assert forall|t: Seq<char>| #[trigger] utf8(t) == nb implies t == vx_n by { lemma_text_of(t); }
            assert forall|k: ActionKind| kind_of(vx_n, mapping_vars@) == Some(k) && !(k is None) implies #[trigger] vx_a.push(Action { kind: k, start: chunk_start, end: chunk_end }).len() == vx_a.len() + 1
                && act_toks(vx_b, vx_a.push(Action { kind: k, start: chunk_start, end: chunk_end })) == toks(vx_b, vx_i + 1, mapping_vars@) by {
                let x = vx_a.push(Action { kind: k, start: chunk_start, end: chunk_end });
                assert(x.drop_last() =~= vx_a);
                assert forall|j: int| chunk_start <= j < p implies !#[trigger] is_hole(vx_b, j) by { }
                lemma_toks_plain(vx_b, chunk_start as int, p, mapping_vars@);
            }
        }
        assert forall|j: int| 0 <= j < vx_i + 1 && #[trigger] is_hole(vx_b, j) implies (j < vx_i ==> kind_of(hole_name(vx_b, j), mapping_vars@) is Some) by { }
    }
@at afterloop 0
    proof {
        let n = vx_b.len() as int;
        lemma_toks_plain(vx_b, chunk_start as int, n, mapping_vars@);
        let x = actions@.push(Action { kind: ActionKind::None, start: chunk_start, end: n as usize });
        assert(x.drop_last() =~= actions@);
        if chunk_start == n { assert(toks(vx_b, chunk_start as int, mapping_vars@) + bytes_toks(vx_b.subrange(chunk_start as int, n)) =~= toks(vx_b, chunk_start as int, mapping_vars@)); }
    }

@fn PathMappingGenerator::apply
@props C14 C15
@spec
    requires gen_ok(*self), file.text() == file_str@
    ensures match r { Ok(Some(s)) => applied(*self, file_str@) == Val::Text(utf8(s@)), Ok(None) => applied(*self, file_str@) is NoGroup,
        Err(_) => applied(*self, file_str@) is Unreadable }
@loop 0
    invariant vx_it0.ok(), vx_it0.seq().len() == self.actions@.len(), forall|k: int| 0 <= k < self.actions@.len() ==> *(#[trigger] vx_it0.seq()[k]) == self.actions@[k],
        gen_ok(*self), file.text() == file_str@, applied(*self, file_str@) == expand(gen_toks(*self), caps.groups(), file_str@), is_utf8(buf@),
        expand(act_toks(self.mapping@, self.actions@.subrange(0, vx_it0.pos())), caps.groups(), file_str@) == Val::Text(buf@),
    decreases vx_it0.seq().len() - vx_it0.pos()
@at beforeloop 0
    proof { lemma_is_utf8_empty(); assert(act_toks(self.mapping@, self.actions@.subrange(0, 0)) =~= Seq::<Tok>::empty()); }
@at loopstart 0
    let ghost vx_i = vx_it0.pos() - 1;
    let ghost vx_w = buf@ + self.mapping@.subrange(action.start as int, action.end as int);
    proof {
        assert(*action == self.actions@[vx_i]);
        lemma_act_step(self.mapping@, self.actions@, vx_i, caps.groups(), file_str@);
        let k = kind_val(action.kind, caps.groups(), file_str@);
        assert(self.actions@.subrange(0, self.actions@.len() as int) =~= self.actions@);
        if !(k is Text) { lemma_act_fail(self.mapping@, self.actions@, vx_i + 1, self.actions@.len() as int, caps.groups(), file_str@); }
        lemma_is_utf8_cat(buf@, self.mapping@.subrange(action.start as int, action.end as int));
        assert forall|t: Seq<char>| is_utf8(#[trigger] (vx_w + utf8(t))) by { lemma_text_of(t); lemma_is_utf8_cat(vx_w, utf8(t)); }
        assert(vx_w + Seq::<u8>::empty() =~= vx_w);
    }
@at afterloop 0
    proof { assert(self.actions@.subrange(0, self.actions@.len() as int) =~= self.actions@); lemma_text_of(text_of(buf@)); }

@raw
// ---------------------------------------------------------------- the list of mappings (C15)
pub open spec fn strs(v: Option<Vec<&str>>) -> Seq<&'static str> { match v { Some(x) => x@, None => Seq::empty() } }
/// the first k variables: a later one replaces an earlier one of the same name
pub open spec fn is_var(s: Seq<char>, k: Seq<char>, v: Seq<char>) -> bool { exists|i: int| #[trigger] first_cut('=', s, i, k, v) }
pub open spec fn vars_ok(s: Seq<&str>) -> bool { forall|i: int| 0 <= i < s.len() ==> found('=', (#[trigger] s[i])@) }
pub open spec fn last_def(s: Seq<&str>, n: int, k: Seq<char>) -> Option<Seq<char>>
    decreases n
{
    if n <= 0 { None } else if exists|v: Seq<char>| #[trigger] is_var(s[n - 1]@, k, v) { Some(choose|v: Seq<char>| #[trigger] is_var(s[n - 1]@, k, v)) } else { last_def(s, n - 1, k) }
}
pub proof fn lemma_is_var(s: Seq<char>, k: Seq<char>, v: Seq<char>, k2: Seq<char>, v2: Seq<char>)
    requires is_var(s, k, v), is_var(s, k2, v2)
    ensures k == k2, v == v2
{
    let i = choose|i: int| #[trigger] first_cut('=', s, i, k, v);
    let j = choose|i: int| #[trigger] first_cut('=', s, i, k2, v2);
    assert('='.vx_m(s, i) && '='.vx_m(s, j));
    assert(i == j);
}
pub open spec fn var_val(m: Map<Seq<char>, String>, k: Seq<char>) -> Option<Seq<char>> { if m.contains_key(k) { Some(m[k]@) } else { None } }
/// a variable of the command line overrides one of the file
pub open spec fn overrides(r: Map<Seq<char>, String>, file: Map<Seq<char>, String>, cmd: Map<Seq<char>, String>) -> bool {
    forall|k: Seq<char>| #[trigger] var_val(r, k) == (if cmd.contains_key(k) { Some(cmd[k]@) } else { var_val(file, k) })
}
pub open spec fn cmd_bad(src: Seq<&str>, dst: Seq<&str>, i: int, vars: Map<Seq<char>, String>) -> bool { !loadable(src[i]@, dst[i]@, vars) }
pub open spec fn map_bad(m: Seq<Mapping>, i: int, vars: Map<Seq<char>, String>) -> bool { !loadable(m[i].source@, m[i].destination@, vars) }
/// the mapping file cannot be used: unreadable, no JSON of that form, or one of its mappings is not accepted
pub open spec fn file_bad(file: Option<&str>, cmd: Map<Seq<char>, String>) -> bool {
    file matches Some(f) && match file_mappings(f@) {
        None => true,
        Some(m) => exists|vs: Map<Seq<char>, String>, i: int| #[trigger] overrides(vs, m.variables@, cmd) && 0 <= i < m.mappings@.len() && #[trigger] map_bad(m.mappings@, i, vs),
    }
}
/// C15: the only reasons why the options are rejected
pub open spec fn not_loaded(variables: Option<Vec<&str>>, sources: Option<Vec<&str>>, destinations: Option<Vec<&str>>, file: Option<&str>) -> bool {
    ||| !vars_ok(strs(variables))
    ||| strs(sources).len() != strs(destinations).len()
    ||| exists|cmd: Map<Seq<char>, String>| #[trigger] is_cmd_vars(cmd, strs(variables))
        && (file_bad(file, cmd) || exists|i: int| 0 <= i < strs(sources).len() && #[trigger] cmd_bad(strs(sources), strs(destinations), i, cmd))
}
/// C15: the mappings of the file, then those of the command line
pub open spec fn loaded(p: Option<PathMappings>, variables: Option<Vec<&str>>, sources: Option<Vec<&str>>, destinations: Option<Vec<&str>>, file: Option<&str>) -> bool {
    &&& vars_ok(strs(variables)) && strs(sources).len() == strs(destinations).len()
    &&& exists|cmd: Map<Seq<char>, String>, f: Seq<PathMappingGenerator>, c: Seq<PathMappingGenerator>| {
        &&& #[trigger] is_cmd_vars(cmd, strs(variables))
        &&& #[trigger] from_file(f, file, cmd)
        &&& #[trigger] cmd_gens(c, strs(sources), strs(destinations), cmd)
        &&& gens_ok(f + c)
        &&& (match p { Some(x) => x.mappings@ == f + c, None => (f + c).len() == 0 }) }
}
pub open spec fn is_cmd_vars(m: Map<Seq<char>, String>, s: Seq<&str>) -> bool { forall|k: Seq<char>| #[trigger] var_val(m, k) == last_def(s, s.len() as int, k) }
pub open spec fn from_file(g: Seq<PathMappingGenerator>, file: Option<&str>, cmd: Map<Seq<char>, String>) -> bool {
    match file { None => g.len() == 0, Some(f) => file_mappings(f@) is Some
        && exists|vs: Map<Seq<char>, String>| #[trigger] overrides(vs, (file_mappings(f@)->0).variables@, cmd) && file_gens(g, (file_mappings(f@)->0).mappings@, vs) }
}
pub open spec fn keyed(ks: Seq<String>, n: int, k: Seq<char>) -> bool { exists|i: int| 0 <= i < n && (#[trigger] ks[i])@ == k }
pub proof fn lemma_keyed(ks: Seq<String>, n: int, k: Seq<char>)
    requires 0 <= n < ks.len()
    ensures keyed(ks, n + 1, k) == (keyed(ks, n, k) || ks[n]@ == k)
{
    if keyed(ks, n + 1, k) { let i = choose|i: int| 0 <= i < n + 1 && (#[trigger] ks[i])@ == k; assert(i < n ==> keyed(ks, n, k)); }
    if keyed(ks, n, k) { let i = choose|i: int| 0 <= i < n && (#[trigger] ks[i])@ == k; assert(ks[i]@ == k); }
    if ks[n]@ == k { assert(keyed(ks, n + 1, k)); }
}
/// what the mapping file says
pub open spec fn file_mappings(path: Seq<char>) -> Option<Mappings> { match file_bytes(path) { Some(b) => json_value::<Mappings>(b), None => None } }
/// serde_json (assumed): the value that a JSON text denotes
pub uninterp spec fn json_value<T>(b: Seq<u8>) -> Option<T>;
#[verifier::external_body]
pub fn vx_json<T>(b: &Vec<u8>) -> (r: VxResult<T>) ensures match r { Ok(t) => json_value::<T>(b@) == Some(t), Err(_) => json_value::<T>(b@) is None } { unimplemented!() }
/// the i-th mapping given on the command line / g are the mappings of m with (or without) a file restriction
pub open spec fn cmd_gens(g: Seq<PathMappingGenerator>, src: Seq<&str>, dst: Seq<&str>, vars: Map<Seq<char>, String>) -> bool {
    g.len() == src.len() && forall|i: int| 0 <= i < g.len() ==> gen_is(#[trigger] g[i], src[i]@, dst[i]@, vars, Set::empty())
}
pub open spec fn gens_of(g: Seq<PathMappingGenerator>, m: Seq<Mapping>, vars: Map<Seq<char>, String>) -> bool {
    g.len() == m.len() && forall|i: int| 0 <= i < g.len() ==> gen_of(#[trigger] g[i], m[i], vars)
}
pub open spec fn gen_of(g: PathMappingGenerator, m: Mapping, vars: Map<Seq<char>, String>) -> bool { gen_is(g, m.source@, m.destination@, vars, m.files@) }
/// the restricted (unrestricted) mappings of the file, in order
pub open spec fn restricted(m: Seq<Mapping>, yes: bool) -> Seq<Mapping>
    decreases m.len()
{
    if m.len() == 0 { Seq::empty() } else {
        let d = restricted(m.drop_last(), yes);
        if (m.last().files@ != Set::<Seq<char>>::empty()) == yes { d.push(m.last()) } else { d }
    }
}
/// the mappings of the file: restricted ones first
pub open spec fn file_gens(g: Seq<PathMappingGenerator>, m: Seq<Mapping>, vars: Map<Seq<char>, String>) -> bool {
    gens_of(g, restricted(m, true) + restricted(m, false), vars)
}
pub open spec fn gens_ok(g: Seq<PathMappingGenerator>) -> bool { forall|i: int| 0 <= i < g.len() ==> gen_ok(#[trigger] g[i]) }
/// C15: the first of the first n mappings that applies decides
pub open spec fn first_applied(g: Seq<PathMappingGenerator>, n: int, path: Seq<char>) -> Val
    decreases g.len() - n
{
    if n < 0 || n >= g.len() { Val::NoGroup } else { match applied(g[n], path) { Val::NoGroup => first_applied(g, n + 1, path), v => v } }
}
/// the shared cache only holds answers
pub open spec fn maps_ok(p: PathMappings) -> bool {
    &&& gens_ok(p.mappings@)
    &&& forall|k: Seq<char>, v: Seq<char>| #[trigger] p.cache.inv(k, v) == (first_applied(p.mappings@, 0, k) == Val::Text(utf8(v)))
}

@fn Mappings::new
@self Mappings
@props C14 C15
@spec
    ensures match r { Ok(m) => file_mappings(path@) == Some(m), Err(_) => file_mappings(path@) is None }

@raw
/// the path that the mappings put in the place of a path, as unit `source` speaks of it
pub open spec fn mapped(p: PathMappings, path: Seq<char>) -> Option<Seq<char>> { match first_applied(p.mappings@, 0, path) { Val::Text(b) => Some(text_of(b)), _ => None } }

@fn PathMappings::get_variables
@props C15
@attr verifier::loop_isolation(false)
@spec
    ensures match r { Ok(m) => vars_ok(strs(*vars)) && is_cmd_vars(m@, strs(*vars)),
        Err(_) => !vars_ok(strs(*vars)) }
@at start
    let ghost vx_s = strs(*vars);
@loop 0
    invariant vx_it0.ok(), vx_it0.seq().len() == vx_s.len(), forall|i: int| 0 <= i < vx_s.len() ==> (*(#[trigger] vx_it0.seq()[i]))@ == vx_s[i]@,
        vars_ok(vx_s.subrange(0, vx_it0.pos())),
        forall|k: Seq<char>| #[trigger] var_val(variables@, k) == last_def(vx_s, vx_it0.pos(), k),
    decreases vx_it0.seq().len() - vx_it0.pos()
@at loopstart 0
    let ghost vx_i = vx_it0.pos() - 1;
    proof {
        let t = vx_s[vx_i]@;
        assert(var@ == t);
        assert(!found('=', t) ==> !vars_ok(vx_s));
        assert(vx_s.subrange(0, vx_i + 1) =~= vx_s.subrange(0, vx_i).push(vx_s[vx_i]));
        assert forall|a: Seq<char>, b: Seq<char>, k: Seq<char>, v: Seq<char>| #[trigger] is_var(t, a, b) && #[trigger] is_var(t, k, v) implies a == k && b == v by { lemma_is_var(t, a, b, k, v); }
        assert forall|a: Seq<char>, b: Seq<char>, j: int| #[trigger] first_cut('=', t, j, a, b) implies is_var(t, a, b) by { }
        let m = variables@;
        assert forall|a: Seq<char>, x: String, k: Seq<char>| is_var(t, a, x@) implies #[trigger] var_val(m.insert(a, x), k) == last_def(vx_s, vx_i + 1, k) by {
            assert(var_val(m, k) == last_def(vx_s, vx_i, k));
            if k == a { assert(is_var(t, k, x@)); let v = choose|v: Seq<char>| #[trigger] is_var(vx_s[vx_i]@, k, v); lemma_is_var(t, a, x@, k, v); }
            else if exists|v: Seq<char>| #[trigger] is_var(vx_s[vx_i]@, k, v) { let v = choose|v: Seq<char>| #[trigger] is_var(vx_s[vx_i]@, k, v); lemma_is_var(t, a, x@, k, v); }
        }
    }
@at afterloop 0
    proof { assert(vx_s.subrange(0, vx_s.len() as int) =~= vx_s); }

@fn PathMappings::get_mappings
@props C15
@attr verifier::loop_isolation(false)
@unfold
@spec
    requires gens_ok(old(out)@)
    ensures gens_ok(final(out)@),
        r is Ok ==> strs(*sources).len() == strs(*destinations).len() && exists|g: Seq<PathMappingGenerator>| final(out)@ == old(out)@ + g && #[trigger] cmd_gens(g, strs(*sources), strs(*destinations), vars@),
        r is Err ==> strs(*sources).len() != strs(*destinations).len() || exists|i: int| 0 <= i < strs(*sources).len() && #[trigger] cmd_bad(strs(*sources), strs(*destinations), i, vars@),
@at start
    let ghost vx_o = out@;
    let ghost vx_s = strs(*sources);
    let ghost vx_d = strs(*destinations);
    proof { assert(vx_o + Seq::<PathMappingGenerator>::empty() =~= vx_o); assert(cmd_gens(Seq::<PathMappingGenerator>::empty(), Seq::empty(), Seq::empty(), vars@)); }
@at beforeloop 0
    let ghost mut vx_g = Seq::<PathMappingGenerator>::empty();
@loop 0
    invariant vx_it0.ok(), vx_it0.seq().len() == vx_s.len(), vx_s.len() == vx_d.len(),
        forall|i: int| 0 <= i < vx_s.len() ==> (#[trigger] vx_it0.seq()[i]).0@ == vx_s[i]@ && vx_it0.seq()[i].1@ == vx_d[i]@,
        gens_ok(out@), out@ == vx_o + vx_g, cmd_gens(vx_g, vx_s.subrange(0, vx_it0.pos()), vx_d.subrange(0, vx_it0.pos()), vars@),
    decreases vx_it0.seq().len() - vx_it0.pos()
@at loopstart 0
    let ghost vx_i = vx_it0.pos() - 1;
    proof { assert(vx_it0.seq()[vx_i].0@ == vx_s[vx_i]@); assert(cmd_bad(vx_s, vx_d, vx_i, vars@) == !loadable(vx_s[vx_i]@, vx_d[vx_i]@, vars@)); }
@at loopend 0
    proof {
        vx_g = vx_g.push(out@.last());
        assert(out@ =~= vx_o + vx_g);
    }
@at afterloop 0
    proof { assert(vx_s.subrange(0, vx_s.len() as int) =~= vx_s); assert(vx_d.subrange(0, vx_d.len() as int) =~= vx_d); }

@fn PathMappings::get_mappings_from_file
@props C15
@attr verifier::loop_isolation(false)
@spec
    requires gens_ok(old(out)@)
    ensures gens_ok(final(out)@), r is Ok ==> exists|g: Seq<PathMappingGenerator>| final(out)@ == old(out)@ + g && #[trigger] from_file(g, *file, vars@),
        r is Err ==> file_bad(*file, vars@),
@at start
    let ghost vx_o = out@;
    proof { if *file is None { assert(vx_o + Seq::<PathMappingGenerator>::empty() =~= vx_o); assert(from_file(Seq::empty(), *file, vars@)); } }
    let ghost vx_m = file_mappings((file->0)@)->0;
@loop 0
    invariant vx_it0.ok(), vx_it0.seq().len() == vars.key_seq().len(),
        forall|i: int| 0 <= i < vx_it0.seq().len() ==> *(#[trigger] vx_it0.seq()[i]).0 == vars.key_seq()[i] && *vx_it0.seq()[i].1 == vars@[vars.key_seq()[i]@],
        mappings.mappings@ == vx_m.mappings@,
        forall|k: Seq<char>| #[trigger] var_val(mappings.variables@, k) == (if keyed(vars.key_seq(), vx_it0.pos(), k) { Some(vars@[k]@) } else { var_val(vx_m.variables@, k) }),
    decreases vx_it0.seq().len() - vx_it0.pos()
@at loopstart 0
    let ghost vx_j = vx_it0.pos() - 1;
    proof {
        let m = mappings.variables@;
        let a = vars.key_seq()[vx_j]@;
        assert(*vx_it0.seq()[vx_j].0 == vars.key_seq()[vx_j]);
        assert forall|x: String, k: Seq<char>| x@ == vars@[a]@ implies #[trigger] var_val(m.insert(a, x), k) == (if keyed(vars.key_seq(), vx_j + 1, k) { Some(vars@[k]@) } else { var_val(vx_m.variables@, k) }) by {
            assert(var_val(m, k) == (if keyed(vars.key_seq(), vx_j, k) { Some(vars@[k]@) } else { var_val(vx_m.variables@, k) }));
            lemma_keyed(vars.key_seq(), vx_j, k);
        }
    }
@at afterloop 0
    proof {
        let vx_vs = mappings.variables@;
        vars.axiom_keys();
        assert forall|k: Seq<char>| #[trigger] var_val(vx_vs, k) == (if vars@.contains_key(k) { Some(vars@[k]@) } else { var_val(vx_m.variables@, k) }) by {
            if vars@.contains_key(k) {
                let i = choose|i: int| 0 <= i < vars.key_seq().len() && (#[trigger] vars.key_seq()[i]).kv() == k;
                assert(vars.key_seq()[i]@ == k);
            } else {
                assert forall|i: int| 0 <= i < vars.key_seq().len() implies (#[trigger] vars.key_seq()[i])@ != k by { assert(vars@.contains_key(vars.key_seq()[i].kv())); }
            }
        }
    }
@at beforeloop 1
    let ghost vx_vs = mappings.variables@;
    proof { assert(overrides(vx_vs, vx_m.variables@, vars@)); assert(vx_o + Seq::<PathMappingGenerator>::empty() =~= vx_o); }
    let ghost mut vx_a = Seq::<PathMappingGenerator>::empty();
@loop 1
    invariant vx_it1.ok(), vx_it1.seq() == vx_m.mappings@, mappings.variables@ == vx_vs, gens_ok(out@), gens_ok(no_files@), out@ == vx_o + vx_a,
        gens_of(vx_a, restricted(vx_m.mappings@.subrange(0, vx_it1.pos()), true), vx_vs), gens_of(no_files@, restricted(vx_m.mappings@.subrange(0, vx_it1.pos()), false), vx_vs),
    decreases vx_it1.seq().len() - vx_it1.pos()
@at loopstart 1
    let ghost vx_i = vx_it1.pos() - 1;
    proof {
        assert(vx_m.mappings@.subrange(0, vx_i + 1).drop_last() =~= vx_m.mappings@.subrange(0, vx_i));
        assert(map_bad(vx_m.mappings@, vx_i, vx_vs) == !loadable(vx_m.mappings@[vx_i].source@, vx_m.mappings@[vx_i].destination@, vx_vs));
        assert(overrides(vx_vs, vx_m.variables@, vars@));
    }
@at loopend 1
    proof { if out@.len() > vx_o.len() + vx_a.len() { vx_a = vx_a.push(out@.last()); } assert(out@ =~= vx_o + vx_a); }
@at beforeloop 2
    let ghost vx_n = no_files@;
    proof { assert(vx_m.mappings@.subrange(0, vx_m.mappings@.len() as int) =~= vx_m.mappings@); assert(vx_n.subrange(0, 0) =~= Seq::<PathMappingGenerator>::empty()); assert(vx_o + vx_a + vx_n.subrange(0, 0) =~= vx_o + vx_a); }
@loop 2
    invariant vx_it2.ok(), vx_it2.seq() == vx_n, gens_ok(vx_n), gens_ok(out@), out@ == vx_o + vx_a + vx_n.subrange(0, vx_it2.pos()),
    decreases vx_it2.seq().len() - vx_it2.pos()
@at loopend 2
    proof { assert(out@ =~= vx_o + vx_a + vx_n.subrange(0, vx_it2.pos())); }
@at afterloop 2
    proof {
        assert(vx_n.subrange(0, vx_n.len() as int) =~= vx_n);
        assert(out@ =~= vx_o + (vx_a + vx_n));
        assert(overrides(vx_vs, vx_m.variables@, vars@));
        assert(file_gens(vx_a + vx_n, vx_m.mappings@, vx_vs));
        assert(from_file(vx_a + vx_n, Some(file), vars@));
    }

@fn PathMappings::new
@props C15
@spec
    ensures r is Ok ==> loaded(r->Ok_0, *variables, *sources, *destinations, *file), r is Err ==> not_loaded(*variables, *sources, *destinations, *file)
@at start
    proof { assert forall|f: Seq<PathMappingGenerator>, c: Seq<PathMappingGenerator>| #[trigger] ((Seq::<PathMappingGenerator>::empty() + f) + c) == f + c by { assert(((Seq::<PathMappingGenerator>::empty() + f) + c) =~= f + c); } }

@fn PathMappings::map
@props C15
@attr verifier::loop_isolation(false)
@attr verifier::allow_complex_invariants
@sig fn map(&self, file: &VxPath) -> (r: VxResult<Option<String>>)
@at start
    proof { assert forall|t: Seq<char>| #[trigger] text_of(utf8(t)) == t by { lemma_text_of(t); } }
@spec
    requires maps_ok(*self)
    ensures match r {
        Ok(Some(s)) => file.utf8() && first_applied(self.mappings@, 0, file.text()) == Val::Text(utf8(s@)),
        Ok(None) => !file.utf8() || first_applied(self.mappings@, 0, file.text()) is NoGroup,
        Err(_) => first_applied(self.mappings@, 0, file.text()) is Unreadable },
        file.utf8() ==> (r matches Ok(x) ==> (match x { Some(s) => mapped(*self, file.text()) == Some(s@), None => mapped(*self, file.text()) is None })) && (r is Err ==> mapped(*self, file.text()) is None)
@loop 0
    invariant_except_break vx_it0.ok(), vx_it0.seq().len() == self.mappings@.len(), forall|i: int| 0 <= i < self.mappings@.len() ==> *(#[trigger] vx_it0.seq()[i]) == self.mappings@[i],
        gens_ok(self.mappings@), file.text() == file_str@, first_applied(self.mappings@, 0, file_str@) == first_applied(self.mappings@, vx_it0.pos(), file_str@), res == None::<String>,
    ensures match res { Some(s) => first_applied(self.mappings@, 0, file_str@) == Val::Text(utf8(s@)), None => first_applied(self.mappings@, 0, file_str@) is NoGroup },
    decreases vx_it0.seq().len() - vx_it0.pos()
@at loopstart 0
    proof { assert(*mapping == self.mappings@[vx_it0.pos() - 1]); assert(gen_ok(self.mappings@[vx_it0.pos() - 1])); }
