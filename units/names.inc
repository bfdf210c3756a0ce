# Contracts of src/common.rs (names) and src/inline_origins.rs  (C06, C10, C21)
@file src/common.rs
@raw
// ---------------------------------------------------------------- C21
pub open spec fn suffixes_re() -> Seq<char> { "((\\.(cold|constprop|llvm|localalias|lto_priv|isra|part|str)(\\.[0-9]+)?)|( ?\\[clone[^\\]]*\\] ?))+$"@ }
/// the regular expression is well formed
#[verifier::external_body]
pub proof fn axiom_suffixes_re() ensures re_valid(suffixes_re()) { }
/// the name without the compilers' suffixes, with the anonymous namespace in one spelling
pub open spec fn anon(s: Seq<char>) -> Seq<char> { replaced(s, "`anonymous namespace'"@, "(anonymous namespace)"@) }
pub open spec fn clean(s: Seq<char>) -> Seq<char> { anon(re_replaced(suffixes_re(), s, ""@)) }
pub open spec fn not_ctl() -> spec_fn(char) -> bool { |c: char| !is_ctl(c) }
pub open spec fn no_ctl(s: Seq<char>) -> Seq<char> { kept(s, not_ctl()) }
pub open spec fn our_opts() -> VxDemOpts { VxDemOpts { return_type: false, parameters: true } }
/// the display name of a function
pub open spec fn display_name(t: Seq<char>, m: NameMangling, l: Language) -> Seq<char> {
    if l is C { clean(t) } else { match demangled(clean(t), m, l, our_opts()) { Some(s) => s, None => clean(t) } }
}
/// the display name of a public symbol
pub open spec fn public_name(t: Seq<char>) -> Seq<char> {
    let l = guessed(t, NameMangling::Mangled, Language::Unknown);
    if l is Unknown { t } else { match demangled(clean(t), NameMangling::Mangled, l, our_opts()) { Some(s) => s, None => clean(t) } }
}
/// a text without control characters has no line break
pub proof fn lemma_no_ctl(s: Seq<char>)
    ensures forall|i: int| 0 <= i < no_ctl(s).len() ==> !is_ctl(#[trigger] no_ctl(s)[i]), !no_ctl(s).contains('\n')
{
    lemma_kept(s, not_ctl());
    assert forall|i: int| 0 <= i < no_ctl(s).len() implies !is_ctl(#[trigger] no_ctl(s)[i]) by { assert(not_ctl()(kept(s, not_ctl())[i])); }
    if no_ctl(s).contains('\n') { let i = choose|i: int| 0 <= i < no_ctl(s).len() && no_ctl(s)[i] == '\n'; assert(!is_ctl(no_ctl(s)[i])); }
}

@fn demangle_options
@props C21
@spec
    ensures r == our_opts()

@fn normalize_anonymous_namespace
@props C21
@spec
    ensures r@ == anon(text@)
@at start
    proof { reveal_strlit("`anonymous namespace'"); }

@fn remove_control_chars
@props C21 C12
@clo 0 c: char ->> (b: bool)
    ensures b == !is_ctl(c)
@spec
    ensures r@ == no_ctl(name@)
@at start
    let ghost vx_n = name;
@at tail
    proof { assert(name@ == kept(vx_n@, not_ctl())); }

@fn fix_symbol_name
@props C21
@spec
    ensures r.text() == clean(name.text()), r.mang() == name.mang(), r.lang() == name.lang()
@at start
    proof { axiom_suffixes_re(); }

@file src/inline_origins.rs
@struct InlineOrigins
@raw
pub open spec fn kname(k: (Seq<char>, NameMangling, Language)) -> Seq<char> { no_ctl(display_name(k.0, k.1, k.2)) }
pub open spec fn has_origin(m: Map<(Seq<char>, NameMangling, Language), u32>, i: int) -> bool { exists|p: (Seq<char>, NameMangling, Language)| #[trigger] m.contains_key(p) && m[p] == i }
/// C06: ids are 0..n, one per function, and denote its display name
pub open spec fn origins_wf(o: InlineOrigins) -> bool {
    let m = o.index_for_mangled_name@;
    &&& forall|k: (Seq<char>, NameMangling, Language)| #[trigger] m.contains_key(k) ==> m[k] < o.demangled_names@.len() && o.demangled_names@[m[k] as int]@ == kname(k)
    &&& forall|j: (Seq<char>, NameMangling, Language), k: (Seq<char>, NameMangling, Language)| #[trigger] m.contains_key(j) && #[trigger] m.contains_key(k) && m[j] == m[k] ==> j == k
    &&& forall|i: int| 0 <= i < o.demangled_names@.len() ==> #[trigger] has_origin(m, i)
}
/// later states keep the ids handed out
pub open spec fn origins_extend(a: InlineOrigins, b: InlineOrigins) -> bool {
    &&& a.demangled_names@.len() <= b.demangled_names@.len()
    &&& forall|i: int| 0 <= i < a.demangled_names@.len() ==> #[trigger] b.demangled_names@[i] == a.demangled_names@[i]
    &&& forall|k: (Seq<char>, NameMangling, Language)| #[trigger] a.index_for_mangled_name@.contains_key(k) ==> b.index_for_mangled_name@.contains_key(k) && b.index_for_mangled_name@[k] == a.index_for_mangled_name@[k]
}

@fn InlineOrigins::demangle
@props C06 C21
@spec
    ensures r@ == display_name(name.text(), name.mang(), name.lang())

@fn InlineOrigins::demangle_and_sanitize
@props C06 C21
@clo 0 c: char ->> (b: bool)
    ensures b == !is_ctl(c)
@spec
    ensures r@ == kname(name.kv())
@at tail
    proof { assert(name@ == no_ctl(vx_n@)); }
@at after let mut name =
    let ghost vx_n = name;

@fn InlineOrigins::get_id
@props C06
@spec
    requires origins_wf(*old(self)), old(self).demangled_names@.len() < u32::MAX
    ensures origins_wf(*final(self)), origins_extend(*old(self), *final(self)), r < final(self).demangled_names@.len(),
        final(self).demangled_names@[r as int]@ == kname(name.kv()),
        final(self).index_for_mangled_name@.contains_key(name.kv()), final(self).index_for_mangled_name@[name.kv()] == r,
        final(self).demangled_names@.len() <= old(self).demangled_names@.len() + 1,
@at start
    let ghost vx_o = *self;
    proof {
        if !vx_o.index_for_mangled_name@.contains_key(name.kv()) {
            let m = vx_o.index_for_mangled_name@.insert(name.kv(), vx_o.demangled_names@.len() as u32);
            assert forall|i: int| 0 <= i < vx_o.demangled_names@.len() + 1 implies #[trigger] has_origin(m, i) by {
                if i < vx_o.demangled_names@.len() {
                    assert(has_origin(vx_o.index_for_mangled_name@, i));
                    let p = choose|p: (Seq<char>, NameMangling, Language)| #[trigger] vx_o.index_for_mangled_name@.contains_key(p) && vx_o.index_for_mangled_name@[p] == i;
                    assert(m.contains_key(p) && m[p] == i);
                } else { assert(m.contains_key(name.kv()) && m[name.kv()] == i); }
            }
        }
    }

@fn InlineOrigins::get_list
@props C06
@spec
    ensures r@ == self.demangled_names@

@fn merge_inline_origins
@props C10 C06
@spec
    requires old(left)@.len() + right@.len() <= u32::MAX
    ensures
        // the ids of left stay; the i-th of right becomes r[i], which denotes the same name; no gaps
        final(left)@ == old(left)@ + right@,
        r@.len() == right@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == old(left)@.len() + i
