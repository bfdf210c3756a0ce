// Included in the crate under cfg(dump_syms_verif): access to crate-private items for the
// replay harness. Nothing here decides anything; it only forwards.
use crate::platform::Platform;
use std::sync::Arc;
use symbolic::debuginfo::{FileInfo, Function};

pub struct Src(crate::source::SourceFiles);
impl Src {
    pub fn new(p: Platform, canonicalize: bool, mapping: Option<Map>) -> Self {
        Src(crate::source::SourceFiles::new(mapping.map(|m| Arc::new(m.0)), p, canonicalize))
    }
    pub fn id(&mut self, c: &[u8], f: &FileInfo) -> u32 {
        let i = self.0.get_id(c, f);
        self.0.get_true_id(i)
    }
    pub fn list(self) -> Vec<String> {
        self.0.get_mapping().get_mapping().to_vec()
    }
}
/// Collects functions, returns (text of every symbol in order, FILE table, INLINE_ORIGIN table)
pub fn collect(funs: &[Function<'_>], p: Platform, inlines: bool, mapping: Option<Map>) -> (Vec<String>, Vec<String>, Vec<String>) {
    let mut src = crate::source::SourceFiles::new(mapping.map(|m| Arc::new(m.0)), p, false);
    let mut orig = crate::inline_origins::InlineOrigins::default();
    let mut c = crate::collector::Collector { platform: p, collect_inlines: inlines, syms: Default::default() };
    for f in funs {
        c.collect_function(f, &mut src, &mut orig);
    }
    (c.syms.values().map(|s| s.to_string()).collect(), src.get_mapping().get_mapping().to_vec(), orig.get_list())
}
pub fn from_object(o: &symbolic::debuginfo::Object<'_>, name: &str, pe: Option<&str>, p: Platform, mapping: Option<Map>, inlines: bool) -> Result<crate::object_info::ObjectInfo, String> {
    crate::object_info::ObjectInfo::from_object(o, name, None, pe, p, mapping.map(|m| Arc::new(m.0)), inlines).map_err(|e| e.to_string())
}
pub struct Ln(crate::line::Lines);
impl Ln {
    pub fn new() -> Self { Ln(crate::line::Lines::new()) }
    pub fn line(&mut self, rva: u32, num: u32, file: u32) { self.0.add_line(rva, num, file) }
    pub fn inline(&mut self, site: (u32, u32, u32, u32), rva: u32, len: u32) {
        self.0.add_inline(
            crate::line::InlineSite { inline_origin_id: site.0, call_depth: site.1, call_line_number: site.2, call_file_id: site.3 },
            crate::line::InlineAddressRange { rva, len },
        )
    }
    pub fn finish(mut self, rva: u32, len: u32) -> String { self.0.finalize(rva, len); self.0.to_string() }
}
pub fn win_name(n: &str) -> (String, Option<u32>) {
    let p = crate::symbol::ParsedWinFuncName::parse_unknown(n);
    (p.name, p.param_size)
}
pub fn skip(n: &str) -> bool { crate::symbol::should_skip_symbol(n) }
pub struct Map(crate::mapping::PathMappings);
impl Map {
    #[allow(clippy::type_complexity)]
    pub fn new(v: &Option<Vec<&str>>, s: &Option<Vec<&str>>, d: &Option<Vec<&str>>, f: &Option<&str>) -> Result<Option<Map>, String> {
        crate::mapping::PathMappings::new(v, s, d, f).map(|o| o.map(Map)).map_err(|e| e.to_string())
    }
    pub fn map(&self, p: &str) -> Result<Option<String>, String> { self.0.map(p).map_err(|e| e.to_string()) }
}
