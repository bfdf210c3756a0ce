# Contracts of src/source.rs  (C05, C10, C13)
@file src/source.rs
@type SliceRef
@typemap Arc<PathMappings> => VxMappings
@raw
impl VxKey for (SliceRef, SliceRef, SliceRef) { type KV = (SliceRef, SliceRef, SliceRef); open spec fn kv(&self) -> (SliceRef, SliceRef, SliceRef) { *self } }
/// the path mappings of the run (contract of PathMappings::map: unit `mapping`)
#[verifier::external_body]
pub struct VxMappings { _p: u8 }
impl VxMappings {
    pub uninterp spec fn mapped(&self, path: Seq<char>) -> Option<Seq<char>>;
    #[verifier::external_body]
    pub fn vx_map(&self, path: &String) -> (r: VxResult<Option<String>>)
        ensures r matches Ok(x) ==> (match x { Some(s) => self.mapped(path@) == Some(s@), None => self.mapped(path@) is None }),
            r is Err ==> self.mapped(path@) is None
    { unimplemented!() }
}
@struct SourceFiles
@struct SourceMap
@raw
/// the path with the run's mappings applied
pub open spec fn shown(m: Option<VxMappings>, path: Seq<char>) -> Seq<char> {
    match m { Some(x) => (match x.mapped(path) { Some(s) => s, None => path }), None => path }
}
pub open spec fn shown_by(m: Option<VxMappings>) -> spec_fn(Seq<char>) -> Seq<char> { |p: Seq<char>| shown(m, p) }
/// the real path of an existing file, or else the path with . and .. removed
pub open spec fn canonical(path: Seq<char>) -> Seq<char> { match fs_real_path(path) { Some(p) => p, None => normal_text(path) } }
/// C13: the path of a file of the debug information
pub open spec fn file_path(p: Platform, canonicalize: bool, comp_dir: Seq<u8>, dir: Seq<char>, name: Seq<char>) -> Seq<char> {
    let d = if !is_abs(p, dir) && comp_dir.len() > 0 { joined(p, text_of(comp_dir), dir) } else { dir };
    let path = joined(p, d, name);
    if canonicalize { canonical(path) } else { path }
}
pub open spec fn has_id(m: Map<Seq<char>, u32>, i: int) -> bool { exists|p: Seq<char>| #[trigger] m.contains_key(p) && m[p] == i }
/// ids are 0..n, one per key
pub open spec fn bijective(m: Map<Seq<char>, u32>, n: int) -> bool {
    &&& forall|p: Seq<char>| #[trigger] m.contains_key(p) ==> m[p] < n
    &&& forall|p: Seq<char>, q: Seq<char>| #[trigger] m.contains_key(p) && #[trigger] m.contains_key(q) && m[p] == m[q] ==> p == q
    &&& forall|i: int| 0 <= i < n ==> #[trigger] has_id(m, i)
}
pub open spec fn key_path(p: Platform, c: bool, k: (SliceRef, SliceRef, SliceRef), dir: Seq<char>, name: Seq<char>) -> Seq<char> {
    file_path(p, c, mem(k.0.0, k.0.1), dir, name)
}
/// C05: the representation invariant of the file table under construction
pub open spec fn files_wf(s: SourceFiles) -> bool {
    &&& bijective(s.ref_to_id@, s.fake_id_to_ref@.len() as int)
    // every id has the (mapped) path of its key
    &&& forall|p: Seq<char>| #[trigger] s.ref_to_id@.contains_key(p) ==> s.fake_id_to_ref@[s.ref_to_id@[p] as int].1@ == shown(s.mapping, p)
    // the pointer cache gives the id of the path the pointers denote
    &&& forall|k: (SliceRef, SliceRef, SliceRef), d: Seq<char>, n: Seq<char>| #[trigger] s.cache@.contains_key(k) && mem(k.1.0, k.1.1) == #[trigger] utf8(d) && mem(k.2.0, k.2.1) == #[trigger] utf8(n)
            ==> s.ref_to_id@.contains_key(key_path(s.platform, s.canonicalize, k, d, n)) && s.ref_to_id@[key_path(s.platform, s.canonicalize, k, d, n)] == s.cache@[k]
    &&& forall|k: (SliceRef, SliceRef, SliceRef)| #[trigger] s.cache@.contains_key(k) ==> in_data(k.0.0, k.0.1) && in_data(k.1.0, k.1.1) && in_data(k.2.0, k.2.1) && s.cache@[k] < s.fake_id_to_ref@.len()
    // consumed ids: dense, with the same path
    &&& forall|i: int| 0 <= i < s.fake_id_to_ref@.len() ==> ((#[trigger] s.fake_id_to_ref@[i]).0 matches Some(t) ==> t < s.id_to_ref@.len() && s.id_to_ref@[t as int] == s.fake_id_to_ref@[i].1)
    &&& forall|i: int, j: int| 0 <= i < j < s.fake_id_to_ref@.len() && (#[trigger] s.fake_id_to_ref@[i]).0 is Some && (#[trigger] s.fake_id_to_ref@[j]).0 is Some ==> s.fake_id_to_ref@[i].0 != s.fake_id_to_ref@[j].0
}
/// every id handed out so far is consumed, under the same number
pub open spec fn consumed(s: SourceFiles) -> bool {
    &&& s.id_to_ref@.len() == s.fake_id_to_ref@.len()
    &&& forall|i: int| 0 <= i < s.fake_id_to_ref@.len() ==> (#[trigger] s.fake_id_to_ref@[i]).0 == Some(i as u32)
}
/// all but the last id are consumed
pub open spec fn consumed_but_last(s: SourceFiles) -> bool {
    &&& s.fake_id_to_ref@.len() > 0 && s.id_to_ref@.len() == s.fake_id_to_ref@.len() - 1 && s.fake_id_to_ref@.last().0 is None
    &&& forall|i: int| 0 <= i < s.id_to_ref@.len() ==> (#[trigger] s.fake_id_to_ref@[i]).0 == Some(i as u32)
}
pub open spec fn same_config(a: SourceFiles, b: SourceFiles) -> bool {
    a.platform == b.platform && a.canonicalize == b.canonicalize && a.mapping == b.mapping
}
pub open spec fn same_files(a: SourceFiles, b: SourceFiles) -> bool {
    same_config(a, b) && a.ref_to_id@ == b.ref_to_id@ && a.fake_id_to_ref@ == b.fake_id_to_ref@ && a.id_to_ref@ == b.id_to_ref@ && a.cache@ == b.cache@
}
/// later states keep the ids and paths handed out
pub open spec fn extends(a: SourceFiles, b: SourceFiles) -> bool {
    &&& same_config(a, b)
    &&& forall|p: Seq<char>| #[trigger] a.ref_to_id@.contains_key(p) ==> b.ref_to_id@.contains_key(p) && b.ref_to_id@[p] == a.ref_to_id@[p]
    &&& a.fake_id_to_ref@.len() <= b.fake_id_to_ref@.len() && a.id_to_ref@.len() <= b.id_to_ref@.len()
    &&& forall|i: int| 0 <= i < a.id_to_ref@.len() ==> #[trigger] b.id_to_ref@[i] == a.id_to_ref@[i]
}
/// the path the output gives to a file of the debug information
pub open spec fn out_path(s: SourceFiles, comp_dir: Seq<u8>, f: VxFileInfo) -> Seq<char> {
    shown(s.mapping, file_path(s.platform, s.canonicalize, comp_dir, f.dir(), f.name()))
}
// ---------------------------------------------------------------- finished table
pub open spec fn map_wf(m: SourceMap) -> bool { bijective(m.ref_to_id@, m.id_to_ref@.len() as int) && m.id_to_ref@.len() <= u32::MAX }
/// the table shows g(path) for every path
pub open spec fn shows(m: SourceMap, g: spec_fn(Seq<char>) -> Seq<char>) -> bool {
    forall|p: Seq<char>| #[trigger] m.ref_to_id@.contains_key(p) ==> m.id_to_ref@[m.ref_to_id@[p] as int]@ == g(p)
}

/// C05: in a consumed table the id of every path denotes the (mapped) path
pub proof fn lemma_resolves(s: SourceFiles, p: Seq<char>)
    requires files_wf(s), consumed(s), s.ref_to_id@.contains_key(p)
    ensures s.ref_to_id@[p] < s.id_to_ref@.len(), s.id_to_ref@[s.ref_to_id@[p] as int]@ == shown(s.mapping, p)
{
    let i = s.ref_to_id@[p] as int;
    assert(s.fake_id_to_ref@[i].0 == Some(i as u32));
}

@fn SourceFiles::new
@props C05
@spec
    ensures files_wf(r), consumed(r), r.fake_id_to_ref@.len() == 0, r.mapping == mapping, r.platform == platform, r.canonicalize == canonicalize

@fn SourceFiles::cast_ptr
@props C05
@spec
    ensures name.stable() ==> in_data(r.0, r.1), in_data(r.0, r.1) ==> mem(r.0, r.1) == name.bytes()

@fn SourceFiles::path_to_string
@props C05 C13
@clo 0 c: &u8 ->> (d: char)
    ensures d == *vx_p0_0 as char
@spec
    ensures r@ == text_of(name.bytes())
@at start
    proof { assert forall|t: Seq<char>| t.len() == name.bytes().len() && (forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] == name.bytes()[i] as char) implies
        #[trigger] t.len() == name.bytes().len() && t == Seq::new(name.bytes().len(), |i: int| name.bytes()[i] as char) by { assert(t =~= Seq::new(name.bytes().len(), |i: int| name.bytes()[i] as char)); } }

@fn SourceFiles::get_path
@props C05 C13
@subst &dir =>> dir.vx_as_str()
@subst &comp_dir =>> comp_dir.vx_as_str()
@subst &name =>> name.vx_str()
@clo 0 e: VxErr ->> (p: VxPath)
    ensures p.text() == normal_text(path.text())
@spec
    ensures r@ == file_path(platform, canonicalize, compilation_dir.bytes(), file.dir(), file.name())

@fn SourceFiles::get_id
@props C05 C13 C15
@spec
    requires files_wf(*old(self)), compilation_dir.stable(), old(self).fake_id_to_ref@.len() < u32::MAX
    ensures files_wf(*final(self)), extends(*old(self), *final(self)), r < final(self).fake_id_to_ref@.len(),
        final(self).fake_id_to_ref@[r as int].1@ == out_path(*old(self), compilation_dir.bytes(), *file),
        final(self).ref_to_id@.contains_key(file_path(old(self).platform, old(self).canonicalize, compilation_dir.bytes(), file.dir(), file.name())),
        final(self).ref_to_id@[file_path(old(self).platform, old(self).canonicalize, compilation_dir.bytes(), file.dir(), file.name())] == r,
        consumed(*old(self)) ==> consumed(*final(self)) || (consumed_but_last(*final(self)) && r == final(self).fake_id_to_ref@.len() - 1),
        // no other path gets an id
        forall|p: Seq<char>| #[trigger] final(self).ref_to_id@.contains_key(p) ==> old(self).ref_to_id@.contains_key(p)
            || p == file_path(old(self).platform, old(self).canonicalize, compilation_dir.bytes(), file.dir(), file.name()),
        final(self).fake_id_to_ref@.len() <= old(self).fake_id_to_ref@.len() + 1, final(self).id_to_ref == old(self).id_to_ref,
@at start
    let ghost vx_o = *self;
    let ghost vx_p = file_path(self.platform, self.canonicalize, compilation_dir.bytes(), file.dir(), file.name());
    proof {
        assert forall|d: Seq<char>, n: Seq<char>| #[trigger] utf8(d) == utf8(file.dir()) && #[trigger] utf8(n) == utf8(file.name()) implies d == file.dir() && n == file.name() by {
            axiom_utf8(d, file.dir()); axiom_utf8(n, file.name());
        }
        if vx_o.ref_to_id@.contains_key(vx_p) {} else {
            let m = vx_o.ref_to_id@.insert(vx_p, vx_o.fake_id_to_ref@.len() as u32);
            assert(bijective(m, (vx_o.fake_id_to_ref@.len() + 1) as int)) by {
                assert forall|i: int| 0 <= i < vx_o.fake_id_to_ref@.len() + 1 implies #[trigger] has_id(m, i) by {
                    if i < vx_o.fake_id_to_ref@.len() {
                        assert(has_id(vx_o.ref_to_id@, i));
                        let p = choose|p: Seq<char>| #[trigger] vx_o.ref_to_id@.contains_key(p) && vx_o.ref_to_id@[p] == i;
                        assert(m.contains_key(p) && m[p] == i);
                    } else { assert(m.contains_key(vx_p) && m[vx_p] == i); }
                }
            }
        }
    }

@fn SourceFiles::get_true_id
@props C05
@subst name.clone() =>> (*name).vx_clone()
@spec
    requires files_wf(*old(self)), fake_id < old(self).fake_id_to_ref@.len(), old(self).id_to_ref@.len() < u32::MAX
    ensures files_wf(*final(self)), extends(*old(self), *final(self)), final(self).ref_to_id == old(self).ref_to_id,
        final(self).fake_id_to_ref@.len() == old(self).fake_id_to_ref@.len(),
        r < final(self).id_to_ref@.len(), final(self).id_to_ref@[r as int]@ == old(self).fake_id_to_ref@[fake_id as int].1@,
        final(self).id_to_ref@.len() <= old(self).id_to_ref@.len() + 1,
        consumed(*old(self)) ==> same_files(*final(self), *old(self)) && r == fake_id,
        consumed_but_last(*old(self)) && fake_id == old(self).fake_id_to_ref@.len() - 1 ==> consumed(*final(self)) && r == fake_id,
@at start
    let ghost vx_o = *self;
    proof { assert(vx_o.fake_id_to_ref@.update(fake_id as int, vx_o.fake_id_to_ref@[fake_id as int]) =~= vx_o.fake_id_to_ref@); }

@fn SourceFiles::get_mapping
@props C05 C10
@spec
    requires files_wf(self), consumed(self), self.id_to_ref@.len() <= u32::MAX
    ensures map_wf(r), r.id_to_ref == self.id_to_ref, r.ref_to_id == self.ref_to_id, shows(r, shown_by(self.mapping))

@fn SourceMap::get_mapping
@props C05 C10
@spec
    ensures r@ == self.id_to_ref@

@raw
// ---------------------------------------------------------------- merging two tables (C10)
pub open spec fn path_at(m: Map<Seq<char>, u32>, i: int) -> Seq<char> { choose|p: Seq<char>| #[trigger] m.contains_key(p) && m[p] == i }
/// table (paths, shown paths) and new ids after the first k files of o went into the table (m, s)
pub open spec fn merged(m: Map<Seq<char>, u32>, s: Seq<String>, o: SourceMap, k: nat) -> (Map<Seq<char>, u32>, Seq<String>, Seq<u32>)
    decreases k
{
    if k == 0 { (m, s, Seq::empty()) } else {
        let (m1, s1, r1) = merged(m, s, o, (k - 1) as nat);
        let p = path_at(o.ref_to_id@, k - 1);
        if m1.contains_key(p) { (m1, s1, r1.push(m1[p])) }
        else { (m1.insert(p, s1.len() as u32), s1.push(o.id_to_ref@[k - 1]), r1.push(s1.len() as u32)) }
    }
}
pub open spec fn inj(s: Seq<u32>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] != s[j] }
/// the merged table is a table, the old ids are kept and every file of o keeps its own path
pub proof fn lemma_merged(a: SourceMap, o: SourceMap, k: nat)
    requires map_wf(a), map_wf(o), k <= o.id_to_ref@.len(), a.id_to_ref@.len() + o.id_to_ref@.len() <= u32::MAX
    ensures ({ let (m, s, r) = merged(a.ref_to_id@, a.id_to_ref@, o, k);
        &&& bijective(m, s.len() as int)
        &&& a.id_to_ref@.len() <= s.len() <= a.id_to_ref@.len() + k && r.len() == k
        &&& forall|p: Seq<char>| #[trigger] a.ref_to_id@.contains_key(p) ==> m.contains_key(p) && m[p] == a.ref_to_id@[p]
        &&& forall|i: int| 0 <= i < a.id_to_ref@.len() ==> #[trigger] s[i] == a.id_to_ref@[i]
        &&& forall|i: int| 0 <= i < k ==> m.contains_key(#[trigger] path_at(o.ref_to_id@, i)) && m[path_at(o.ref_to_id@, i)] == r[i]
        &&& forall|p: Seq<char>| #[trigger] m.contains_key(p) ==> a.ref_to_id@.contains_key(p) || exists|i: int| 0 <= i < k && p == #[trigger] path_at(o.ref_to_id@, i)
        &&& inj(r)
        &&& forall|g: spec_fn(Seq<char>) -> Seq<char>| #[trigger] shows(a, g) && #[trigger] shows(o, g) ==> (forall|p: Seq<char>| #[trigger] m.contains_key(p) ==> s[m[p] as int]@ == g(p))
    })
    decreases k
{
    if k > 0 {
        let k1 = (k - 1) as nat;
        lemma_merged(a, o, k1);
        let (m1, s1, r1) = merged(a.ref_to_id@, a.id_to_ref@, o, k1);
        let (m, s, r) = merged(a.ref_to_id@, a.id_to_ref@, o, k);
        let p = path_at(o.ref_to_id@, k - 1);
        assert(has_id(o.ref_to_id@, k - 1));
        assert(o.ref_to_id@.contains_key(p) && o.ref_to_id@[p] == k - 1);
        assert forall|i: int| 0 <= i < k1 implies #[trigger] path_at(o.ref_to_id@, i) != p && m1[path_at(o.ref_to_id@, i)] == r1[i] by { assert(has_id(o.ref_to_id@, i)); }
        assert(bijective(m, s.len() as int)) by {
            assert forall|i: int| 0 <= i < s.len() implies #[trigger] has_id(m, i) by {
                if i < s1.len() {
                    assert(has_id(m1, i));
                    let q = path_at(m1, i);
                    assert(m.contains_key(q) && m[q] == i);
                } else { assert(m.contains_key(p) && m[p] == i); }
            }
        }
        assert forall|i: int, j: int| 0 <= i < j < r.len() implies r[i] != r[j] by {
            if j == k1 {
                assert(has_id(o.ref_to_id@, i));
                let q = path_at(o.ref_to_id@, i);
                assert(m1.contains_key(q) && m1[q] == r1[i]);
            }
        }
        assert forall|q: Seq<char>| #[trigger] m.contains_key(q) implies a.ref_to_id@.contains_key(q) || exists|i: int| 0 <= i < k && q == #[trigger] path_at(o.ref_to_id@, i) by {
            if q == p { assert(q == path_at(o.ref_to_id@, k - 1)); }
            else if !a.ref_to_id@.contains_key(q) { let i = choose|i: int| 0 <= i < k1 && q == #[trigger] path_at(o.ref_to_id@, i); assert(0 <= i < k); }
        }
    }
}
/// ids 0..n in increasing order: the id at position i is i
pub proof fn lemma_dense(q: Seq<int>, n: int)
    requires forall|i: int, j: int| 0 <= i < j < q.len() ==> q[i] < q[j],
        forall|i: int| 0 <= i < q.len() ==> 0 <= #[trigger] q[i] < n,
        forall|x: int| 0 <= x < n ==> #[trigger] q.contains(x), n >= 0
    ensures q.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] q[i] == i
{
    assert forall|i: int| 0 <= i < q.len() implies #[trigger] q[i] == i by { lemma_dense_at(q, n, i); }
    if q.len() > n { assert(q[n] == n); }
    if q.len() < n { assert(q.contains(n - 1)); let k = choose|k: int| 0 <= k < q.len() && q[k] == n - 1; assert(q[k] == k); }
}
pub proof fn lemma_dense_at(q: Seq<int>, n: int, i: int)
    requires forall|i: int, j: int| 0 <= i < j < q.len() ==> q[i] < q[j],
        forall|i: int| 0 <= i < q.len() ==> 0 <= #[trigger] q[i] < n,
        forall|x: int| 0 <= x < n ==> #[trigger] q.contains(x), 0 <= i < q.len()
    ensures q[i] == i
    decreases i
{
    if i > 0 { lemma_dense_at(q, n, i - 1); assert(q[i - 1] < q[i]); }
    if q[i] > i {
        assert(q.contains(i));
        let k = choose|k: int| 0 <= k < q.len() && q[k] == i;
        if k > i { assert(q[i] < q[k]); }
        if k < i { lemma_dense_at_below(q, n, i, k); }
    }
}
pub proof fn lemma_dense_at_below(q: Seq<int>, n: int, i: int, k: int)
    requires forall|i: int, j: int| 0 <= i < j < q.len() ==> q[i] < q[j], 0 <= k < i < q.len(), q[i - 1] == i - 1, q[k] == i
    ensures false
{
    if k < i - 1 { assert(q[k] < q[i - 1]); }
}
/// the files of a table in the order of their ids
pub proof fn lemma_by_id(m: VxMap<String, u32>, n: int, a: Seq<(&String, &u32)>, b: Seq<(&String, &u32)>)
    requires bijective(m@, n), n >= 0, a.len() == m.key_seq().len(),
        forall|i: int| 0 <= i < a.len() ==> *(#[trigger] a[i]).0 == m.key_seq()[i] && *a[i].1 == m@[m.key_seq()[i].kv()],
        a.to_multiset() == b.to_multiset(), b.len() == a.len(),
        key_sorted(b, |x: (&String, &u32)| (*x.1 as int, 0int)),
    ensures b.len() == n, forall|i: int| 0 <= i < n ==> *(#[trigger] b[i]).1 == i && b[i].0@ == path_at(m@, i)
{
    m.axiom_keys();
    let key = |x: (&String, &u32)| (*x.1 as int, 0int);
    assert(a.no_duplicates()) by {
        assert forall|i: int, j: int| 0 <= i < j < a.len() implies a[i] != a[j] by { assert(m.key_seq()[i].kv() != m.key_seq()[j].kv()); }
    }
    a.lemma_multiset_has_no_duplicates();
    assert(b.no_duplicates()) by { b.lemma_multiset_has_no_duplicates_conv(); }
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert forall|i: int| 0 <= i < b.len() implies m@.contains_key((#[trigger] b[i]).0@) && m@[b[i].0@] == *b[i].1 by {
        assert(b.to_multiset().contains(b[i]));
        assert(a.to_multiset().contains(b[i]));
        assert(a.contains(b[i]));
        let k = choose|k: int| 0 <= k < a.len() && a[k] == b[i];
        assert(m@.contains_key(m.key_seq()[k].kv()));
    }
    assert forall|i: int, j: int| 0 <= i < b.len() && 0 <= j < b.len() && i != j implies *(#[trigger] b[i]).1 != *(#[trigger] b[j]).1 by {
        if *b[i].1 == *b[j].1 {
            assert(b[i].0@ == b[j].0@);
            assert(b.to_multiset().contains(b[i]) && b.to_multiset().contains(b[j]));
            assert(a.contains(b[i]) && a.contains(b[j]));
            let x = choose|k: int| 0 <= k < a.len() && a[k] == b[i];
            let y = choose|k: int| 0 <= k < a.len() && a[k] == b[j];
            assert(m.key_seq()[x].kv() == m.key_seq()[y].kv());
            assert(x == y);
            assert(b[i] == b[j]);
        }
    }
    let q = Seq::new(b.len(), |i: int| *b[i].1 as int);
    assert forall|i: int, j: int| 0 <= i < j < q.len() implies q[i] < q[j] by { assert(kle(key(b[i]), key(b[j]))); assert(*b[i].1 != *b[j].1); }
    assert forall|x: int| 0 <= x < n implies #[trigger] q.contains(x) by {
        assert(has_id(m@, x));
        let p = path_at(m@, x);
        let k = choose|k: int| 0 <= k < m.key_seq().len() && (#[trigger] m.key_seq()[k]).kv() == p;
        assert(*a[k].1 == x);
        assert(a.contains(a[k]));
        assert(b.to_multiset().contains(a[k]));
        assert(b.contains(a[k]));
        let j = choose|j: int| 0 <= j < b.len() && b[j] == a[k];
        assert(q[j] == x);
    }
    lemma_dense(q, n);
    assert forall|i: int| 0 <= i < n implies *(#[trigger] b[i]).1 == i && b[i].0@ == path_at(m@, i) by {
        assert(q[i] == i);
        assert(has_id(m@, i));
    }
}

@fn SourceMap::merge
@props C10
@spec
    requires map_wf(*old(self)), map_wf(*old(other)), old(self).id_to_ref@.len() + old(other).id_to_ref@.len() <= u32::MAX
    ensures map_wf(*final(self)),
        // no file on one side: the other side's table, ids unchanged
        old(other).id_to_ref@.len() == 0 ==> r is None && *final(self) == *old(self),
        old(other).id_to_ref@.len() > 0 && old(self).id_to_ref@.len() == 0 ==> r is None && final(self).id_to_ref@ == old(other).id_to_ref@ && final(self).ref_to_id@ == old(other).ref_to_id@,
        old(other).id_to_ref@.len() > 0 && old(self).id_to_ref@.len() > 0 ==> r is Some
            && (final(self).ref_to_id@, final(self).id_to_ref@, r->0@) == merged(old(self).ref_to_id@, old(self).id_to_ref@, *old(other), old(other).id_to_ref@.len()),
        // old ids keep their path, the other side's ids are remapped to their own path
        r is Some ==> r->0@.len() == old(other).id_to_ref@.len() && inj(r->0@)
            && (forall|i: int| 0 <= i < old(self).id_to_ref@.len() ==> #[trigger] final(self).id_to_ref@[i] == old(self).id_to_ref@[i])
            && (forall|i: int| 0 <= i < r->0@.len() ==> (#[trigger] r->0@[i]) < final(self).id_to_ref@.len()),
        forall|g: spec_fn(Seq<char>) -> Seq<char>| #[trigger] shows(*old(self), g) && #[trigger] shows(*old(other), g) ==> shows(*final(self), g)
            && (r is Some ==> forall|i: int| 0 <= i < r->0@.len() ==> final(self).id_to_ref@[(#[trigger] r->0@[i]) as int]@ == old(other).id_to_ref@[i]@),
@clo 0 x: &(&String, &u32) ->> (k: u32)
    ensures k == *vx_p0_0.1
@at after sort_unstable_by_key
    proof {
        let key = |x: (&String, &u32)| (*x.1 as int, 0int);
        assert(key_sorted(other_files@, key));
        lemma_by_id(other.ref_to_id, other.id_to_ref@.len() as int, vx_pairs, other_files@);
    }
@at after let mut other_files
    let ghost vx_pairs = other_files@;
    let ghost vx_o = *self;
@loop 0
    invariant vx_it0.ok(), map_wf(vx_o), map_wf(*other), vx_o.id_to_ref@.len() + other.id_to_ref@.len() <= u32::MAX,
        vx_it0.seq().len() == other.id_to_ref@.len(), remapping@.len() == other.id_to_ref@.len(),
        forall|i: int| 0 <= i < vx_it0.seq().len() ==> *(#[trigger] vx_it0.seq()[i]).1 == i && vx_it0.seq()[i].0@ == path_at(other.ref_to_id@, i),
        (self.ref_to_id@, self.id_to_ref@) == (merged(vx_o.ref_to_id@, vx_o.id_to_ref@, *other, vx_it0.pos() as nat).0, merged(vx_o.ref_to_id@, vx_o.id_to_ref@, *other, vx_it0.pos() as nat).1),
        self.id_to_ref@.len() <= vx_o.id_to_ref@.len() + vx_it0.pos(),
        merged(vx_o.ref_to_id@, vx_o.id_to_ref@, *other, vx_it0.pos() as nat).2.len() == vx_it0.pos(),
        forall|i: int| 0 <= i < vx_it0.pos() ==> #[trigger] remapping@[i] == merged(vx_o.ref_to_id@, vx_o.id_to_ref@, *other, vx_it0.pos() as nat).2[i],
    decreases vx_it0.seq().len() - vx_it0.pos()
@at afterloop 0
    proof {
        lemma_merged(vx_o, *other, other.id_to_ref@.len());
        assert(remapping@ =~= merged(vx_o.ref_to_id@, vx_o.id_to_ref@, *other, other.id_to_ref@.len()).2);
        assert forall|i: int| 0 <= i < remapping@.len() implies (#[trigger] remapping@[i]) < self.id_to_ref@.len() by {
            assert(self.ref_to_id@.contains_key(path_at(other.ref_to_id@, i)));
        }
        assert forall|g: spec_fn(Seq<char>) -> Seq<char>| #[trigger] shows(vx_o, g) && #[trigger] shows(*other, g) implies
            (forall|i: int| 0 <= i < remapping@.len() ==> self.id_to_ref@[(#[trigger] remapping@[i]) as int]@ == other.id_to_ref@[i]@) by {
            assert forall|i: int| 0 <= i < remapping@.len() implies self.id_to_ref@[(#[trigger] remapping@[i]) as int]@ == other.id_to_ref@[i]@ by {
                let p = path_at(other.ref_to_id@, i);
                assert(has_id(other.ref_to_id@, i));
                assert(self.ref_to_id@.contains_key(p) && self.ref_to_id@[p] == remapping@[i]);
            }
        }
    }
