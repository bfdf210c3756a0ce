# Contracts of src/platform.rs  (C13, C12)
@file src/platform.rs
@enum Platform Clone, Copy, PartialEq, Eq, Structural
@raw
/// C13: what counts as absolute
pub open spec fn is_abs(p: Platform, s: Seq<char>) -> bool {
    match p {
        Platform::Linux | Platform::Mac => s.len() > 0 && s[0] == '/',
        Platform::Win => s.len() == 0 || exists|k: int| #[trigger] win_abs_at(s, k),
    }
}
pub open spec fn is_sep(c: char) -> bool { c == '/' || c == '\\' }
/// s's first component is s[0..k]: it is empty (a leading separator) or ends with ':'
pub open spec fn win_abs_at(s: Seq<char>, k: int) -> bool {
    &&& 0 <= k <= s.len() && (forall|i: int| 0 <= i < k ==> !is_sep(#[trigger] s[i])) && (k < s.len() ==> is_sep(s[k]))
    &&& (k == 0 || s[k - 1] == ':')
}
/// s without trailing separators
pub open spec fn cut_end(p: Platform, s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() > 0 && (s.last() == '/' || (p is Win && s.last() == '\\')) { cut_end(p, s.drop_last()) } else { s }
}
pub open spec fn cut_start(p: Platform, s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() > 0 && (s[0] == '/' || (p is Win && s[0] == '\\')) { cut_start(p, s.subrange(1, s.len() as int)) } else { s }
}
/// C13: the joined path
pub open spec fn joined(p: Platform, left: Seq<char>, right: Seq<char>) -> Seq<char> {
    let l = cut_end(p, left);
    let sep = if !(p is Win) || (l.len() > 0 && l[0] == '/') { "/"@ } else { "\\"@ };
    l + sep + cut_start(p, right)
}
pub proof fn lemma_trim<P: VxPat>(p: Platform, pat: P, s: Seq<char>)
    requires forall|t: Seq<char>, k: int| 0 <= k < t.len() ==> #[trigger] pat.vx_m(t, k) == (t[k] == '/' || (p is Win && t[k] == '\\'))
    ensures trim_end(pat, s) == cut_end(p, s), trim_start(pat, s) == cut_start(p, s)
    decreases s.len()
{
    if s.len() > 0 {
        lemma_trim(p, pat, s.drop_last());
        lemma_trim(p, pat, s.subrange(1, s.len() as int));
        assert(pat.vx_m(s, 0) == (s[0] == '/' || (p is Win && s[0] == '\\')));
        assert(pat.vx_m(s, s.len() - 1) == (s.last() == '/' || (p is Win && s.last() == '\\')));
    }
}
pub proof fn lemma_join_parts(p: Platform, s: Seq<char>)
    ensures cut_end(p, s).len() <= s.len(), cut_end(p, s) == s.subrange(0, cut_end(p, s).len() as int),
        cut_start(p, s).len() <= s.len(), cut_start(p, s) == s.subrange(s.len() - cut_start(p, s).len(), s.len() as int),
        forall|i: int| cut_end(p, s).len() <= i < s.len() ==> is_sep(#[trigger] s[i]),
        forall|i: int| 0 <= i < s.len() - cut_start(p, s).len() ==> is_sep(#[trigger] s[i]),
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        let t = s.subrange(1, s.len() as int);
        lemma_join_parts(p, d);
        lemma_join_parts(p, t);
        assert(forall|i: int| 0 <= i < d.len() ==> s[i] == d[i]);
        if s.last() == '/' || (p is Win && s.last() == '\\') {
            assert(cut_end(p, s) =~= s.subrange(0, cut_end(p, s).len() as int));
            assert forall|i: int| cut_end(p, s).len() <= i < s.len() implies is_sep(#[trigger] s[i]) by { if i < d.len() { assert(is_sep(d[i])); } }
        } else { assert(s.subrange(0, s.len() as int) =~= s); }
        if s[0] == '/' || (p is Win && s[0] == '\\') {
            assert(cut_start(p, s) =~= s.subrange(s.len() - cut_start(p, s).len(), s.len() as int));
            assert forall|i: int| 0 <= i < s.len() - cut_start(p, s).len() implies is_sep(#[trigger] s[i]) by { if i > 0 { assert(is_sep(t[i - 1])); } }
        } else { assert(s.subrange(0, s.len() as int) =~= s); }
    } else {
        assert(cut_end(p, s) =~= s.subrange(0, 0));
        assert(cut_start(p, s) =~= s.subrange(0, 0));
    }
}
pub open spec fn platform_text(p: Platform) -> Seq<char> {
    match p { Platform::Linux => "Linux"@, Platform::Mac => "Mac"@, Platform::Win => "windows"@ }
}
impl VxDisp for Platform {
    open spec fn vx_text(&self) -> Seq<char> { platform_text(*self) }
    open spec fn vx_disp_ok(&self) -> bool { true }
}

@fn Platform::is_target
@props C22
@spec
    ensures r == (*self == Platform::Linux)

@fn Platform::is_absolute_path
@props C13
@spec
    ensures r == is_abs(*self, path@)
@at after let first_fragment =
    proof {
        let s = path@;
        let k = first_fragment@.len() as int;
        assert(first_fragment@ =~= s.subrange(0, k));
        assert forall|i: int| 0 <= i < k implies !is_sep(#[trigger] s[i]) by {
            let a = ['/', '\\'];
            assert(a@[0] == '/' && a@[1] == '\\' && a@.len() == 2);
            assert(!a.vx_m(s, i));
        }
        assert(k < s.len() ==> is_sep(s[k]));
        if k == 0 || s[k - 1] == ':' { assert(win_abs_at(s, k)); }
        assert forall|j: int| #[trigger] win_abs_at(s, j) implies j == k by {
            if j < k { assert(!is_sep(s[j])); }
            if k < j { assert(!is_sep(s[k])); }
        }
    }

@fn Platform::join_paths
@props C13
@spec
    ensures r@ =~= joined(*self, left@, right@)
@at start
    proof { reveal_strlit("/"); reveal_strlit("\\"); assert("/"@ =~= seq!['/']); assert("\\"@ =~= seq!['\\']); assert forall|a: Seq<char>| #[trigger] (Seq::<char>::empty() + a) == a by { assert(Seq::<char>::empty() + a =~= a); }
        if *self is Win {
            let a = ['/', '\\'];
            assert(a@[0] == '/' && a@[1] == '\\' && a@.len() == 2);
            assert(forall|c: char| #[trigger] a@.contains(c) == is_sep(c));
            lemma_trim(*self, a, left@); lemma_trim(*self, a, right@);
        } else { lemma_trim(*self, '/', left@); lemma_trim(*self, '/', right@); } }

@fn <Display for Platform>::fmt
@props C12
@spec
    ensures r.is_ok() ==> final(f)@ == old(f)@ + platform_text(*self)
