# Contracts of src/utils.rs  (C16, C20, C22)
@file src/utils.rs
@raw
// ---------------------------------------------------------------- symbol store (C16)
/// the directory of a module: a compressed extension stands for the uncompressed one
pub open spec fn base_text(name: Seq<char>) -> Seq<char> {
    match ext_of(name) {
        Some(e) => if lower(e) == "pd_"@ { with_ext(name, "pdb"@) } else if lower(e) == "ex_"@ { with_ext(name, "exe"@) } else if lower(e) == "dl_"@ { with_ext(name, "dll"@) } else { name },
        None => name,
    }
}
pub open spec fn is_sym_name(name: Seq<char>, r: Seq<char>) -> bool {
    if exists|k: int, a: Seq<char>, b: Seq<char>| #[trigger] last_cut('.', name, k, a, b) && lower(b) == "pdb"@ {
        exists|k: int, a: Seq<char>, b: Seq<char>| #[trigger] last_cut('.', name, k, a, b) && r == a + ".sym"@
    } else { r == name + ".sym"@ }
}
pub proof fn lemma_last_cut(s: Seq<char>, k: int, a: Seq<char>, b: Seq<char>, k2: int, a2: Seq<char>, b2: Seq<char>)
    requires last_cut('.', s, k, a, b), last_cut('.', s, k2, a2, b2)
    ensures k == k2, a == a2, b == b2
{ assert('.'.vx_m(s, k) && '.'.vx_m(s, k2)); }

@fn get_base
@props C16
@spec
    ensures r.text() == base_text(file_name@), r.utf8()

@fn get_path_for_sym
@props C16
@spec
    ensures exists|f: Seq<char>| #[trigger] is_sym_name(file_name@, f) && r.text() == path_join(path_join(base_text(file_name@), id@), f)
@at start
    proof {
        assert forall|k: int, a: Seq<char>, b: Seq<char>| #[trigger] last_cut('.', file_name@, k, a, b) implies '.'.vx_m(file_name@, k) && is_sym_name(file_name@, if lower(b) == "pdb"@ { a + ".sym"@ } else { file_name@ + ".sym"@ }) by {
            if exists|k: int, a: Seq<char>, b: Seq<char>| #[trigger] last_cut('.', file_name@, k, a, b) && lower(b) == "pdb"@ {
                let (k2, a2, b2) = choose|k: int, a: Seq<char>, b: Seq<char>| #[trigger] last_cut('.', file_name@, k, a, b) && lower(b) == "pdb"@;
                lemma_last_cut(file_name@, k, a, b, k2, a2, b2);
            }
        }
        assert(!found('.', file_name@) ==> is_sym_name(file_name@, file_name@ + ".sym"@));
        assert(Seq::<char>::empty() + file_name@ =~= file_name@);
        assert forall|a: Seq<char>| #[trigger] (Seq::<char>::empty() + a) == a by { assert(Seq::<char>::empty() + a =~= a); }
    }

@fn get_filename
@props C16 C20
@spec
    requires name_of(path.text()) is Some, path.utf8()
    ensures name_of(path.text()) == Some(r@), name_of(path.text())->0 == r@

@raw
// ---------------------------------------------------------------- normalisation (C22)
/// C22: the first n components: '.' dropped, '..' cancels the normal component before it
pub open spec fn normal(s: Seq<Comp>, n: int) -> Seq<Comp>
    decreases n
{
    if n <= 0 { Seq::empty() } else {
        match s[n - 1] { Comp::Cur => normal(s, n - 1), Comp::Parent => popped(normal(s, n - 1)), c => normal(s, n - 1).push(c) }
    }
}
/// the text of the normalised path
pub open spec fn normal_text(p: Seq<char>) -> Seq<char> { render(normal(comps_of(p), comps_of(p).len() as int)) }
pub open spec fn no_dots(s: Seq<Comp>) -> bool { forall|i: int| 0 <= i < s.len() ==> !((#[trigger] s[i]) is Cur) && !(s[i] is Parent) }
/// number of leading prefix and root components
pub open spec fn anchored(s: Seq<Comp>, n: int) -> int { if n >= 1 && s[0] is Prefix { if n >= 2 && s[1] is Root { 2 } else { 1 } } else if n >= 1 && s[0] is Root { 1int } else { 0 } }
/// C22: the result has no '.' or '..'
pub proof fn lemma_no_dots(s: Seq<Comp>, n: int)
    requires 0 <= n <= s.len()
    ensures no_dots(normal(s, n)), normal(s, n).len() <= n
    decreases n
{ if n > 0 { lemma_no_dots(s, n - 1); } }
/// normalising what has no '.' or '..' changes nothing
pub proof fn lemma_normal_id(s: Seq<Comp>, n: int)
    requires 0 <= n <= s.len(), no_dots(s)
    ensures normal(s, n) == s.subrange(0, n)
    decreases n
{
    if n > 0 { lemma_normal_id(s, n - 1); assert(s[n - 1] == s[n - 1] && !(s[n - 1] is Cur)); assert(s.subrange(0, n) =~= s.subrange(0, n - 1).push(s[n - 1])); }
    else { assert(s.subrange(0, 0) =~= Seq::<Comp>::empty()); }
}
/// C22: normalising again changes nothing
pub proof fn lemma_normal_twice(s: Seq<Comp>)
    ensures normal(normal(s, s.len() as int), normal(s, s.len() as int).len() as int) == normal(s, s.len() as int)
{
    let t = normal(s, s.len() as int);
    lemma_no_dots(s, s.len() as int);
    lemma_normal_id(t, t.len() as int);
    assert(t.subrange(0, t.len() as int) =~= t);
}
/// C22: the prefix and the root stay, and nothing else becomes one; after n components
pub proof fn lemma_anchor(s: Seq<Comp>, n: int)
    requires comps_shape(s), 0 <= n <= s.len()
    ensures
        n >= 1 && s[0] is Prefix ==> normal(s, n).len() >= 1 && normal(s, n)[0] == s[0],
        n >= 2 && s[0] is Prefix && s[1] is Root ==> normal(s, n).len() >= 2 && normal(s, n)[1] == s[1],
        n >= 1 && s[0] is Root ==> normal(s, n).len() >= 1 && normal(s, n)[0] == s[0],
        forall|i: int| anchored(s, n) <= i < normal(s, n).len() ==> (#[trigger] normal(s, n)[i]) is Normal,
    decreases n
{
    if n > 0 {
        lemma_anchor(s, n - 1);
        lemma_no_dots(s, n - 1);
    }
}
/// the root and prefixes come first: where push of a RootDir component appends
pub proof fn lemma_before_root(s: Seq<Comp>, n: int)
    requires comps_shape(s), 0 <= n < s.len(), s[n] is Root
    ensures normal(s, n) == s.subrange(0, n), n == 0 || (n == 1 && s[0] is Prefix)
{
    if n > 0 { assert(n == 1); assert(normal(s, 0) == Seq::<Comp>::empty()); assert(normal(s, 1) == Seq::<Comp>::empty().push(s[0])); assert(s.subrange(0, 1) =~= Seq::<Comp>::empty().push(s[0])); }
    else { assert(s.subrange(0, 0) =~= Seq::<Comp>::empty()); }
}

@fn normalize_path
@props C22
@sig pub fn normalize_path(path: &VxPath) -> (r: VxPath)
@spec
    ensures comps_of(r.text()) == normal(comps_of(path.text()), comps_of(path.text()).len() as int), r.text() == normal_text(path.text())
@at start
    let ghost vx_s = comps_of(path.text());
    proof { axiom_comps(); assert(normal(vx_s, 0) =~= Seq::<Comp>::empty()); assert(comps_shape(vx_s)); 
        assert(vx_s.len() > 0 && vx_s[0] is Prefix ==> normal(vx_s, 1) =~= seq![vx_s[0]]); }
@at beforeloop 0
    let ghost vx_k = vx_s.len() - components.rest().len();
@loop 0
    invariant vx_it0.ok(), 0 <= vx_k <= 1, vx_it0.seq().len() == vx_s.len() - vx_k, forall|i: int| 0 <= i < vx_it0.seq().len() ==> (#[trigger] vx_it0.seq()[i]).cv() == vx_s[i + vx_k],
        vx_s == comps_of(path.text()), comps_shape(vx_s), vx_k == (if vx_s.len() > 0 && vx_s[0] is Prefix { 1int } else { 0 }),
        comps_of(ret.text()) == normal(vx_s, vx_it0.pos() + vx_k), canon(ret.text()),
    decreases vx_it0.seq().len() - vx_it0.pos()
@at loopstart 0
    proof {
        axiom_comps();
        let n = vx_it0.pos() - 1 + vx_k;
        assert(component.cv() == vx_s[n]);
        lemma_no_dots(vx_s, n);
        lemma_anchor(vx_s, n);
        if vx_s[n] is Normal {
            let t = comp_text(vx_s[n]);
            assert(comps_of(path.text())[n] == vx_s[n]);
            assert forall|p: Seq<char>| comps_of(#[trigger] path_join(p, t)) == comps_of(p).push(vx_s[n]) && (canon(p) ==> canon(path_join(p, t))) by { assert(path_join(p, comp_text(comps_of(path.text())[n])) == path_join(p, t)); }
        }
        if vx_s[n] is Root { lemma_before_root(vx_s, n); assert(normal(vx_s, n + 1) =~= (if n > 0 { seq![vx_s[0], Comp::Root] } else { seq![Comp::Root] })); }
    }
