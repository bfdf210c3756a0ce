# The architecture dump_syms was built for: get_compile_time_arch of src/common.rs (C25)
@file src/common.rs
@path std::env::consts::ARCH => ARCH
@path env::consts::ARCH => ARCH
@raw
/// symbolic's names of the architectures (assumed)
pub enum Arch { Unknown, X86, Amd64, Arm, Arm64, Mips, Mips64, Ppc, Ppc64 }
pub open spec fn cpu_text(c: Arch) -> Seq<char> {
    match c { Arch::Unknown => "unknown"@, Arch::X86 => "x86"@, Arch::Amd64 => "x86_64"@, Arch::Arm => "arm"@, Arch::Arm64 => "arm64"@, Arch::Mips => "mips"@, Arch::Mips64 => "mips64"@, Arch::Ppc => "ppc"@, Arch::Ppc64 => "ppc64"@ }
}
impl Arch { #[verifier::external_body] pub fn name(&self) -> (r: &'static str) ensures r@ == cpu_text(*self) { unimplemented!() } }
/// what Rust calls the architecture that the program is built for
pub uninterp spec fn target_arch() -> Seq<char>;
#[verifier::external_body]
pub fn vx_target_arch() -> (r: &'static str) ensures r@ == target_arch() { unimplemented!() }
pub open spec fn compile_cpu() -> Arch {
    let t = target_arch();
    if t == "x86"@ { Arch::X86 } else if t == "x86_64"@ { Arch::Amd64 } else if t == "arm"@ { Arch::Arm } else if t == "aarch64"@ { Arch::Arm64 }
    else if t == "mips"@ { Arch::Mips } else if t == "mips64"@ { Arch::Mips64 } else if t == "powerpc"@ { Arch::Ppc } else if t == "powerpc64"@ { Arch::Ppc64 } else { Arch::Unknown }
}
/// C25: the name of the architecture dump_syms was built for
pub open spec fn compile_arch() -> Seq<char> { cpu_text(compile_cpu()) }

@fn get_compile_time_arch
@props C25
@subst ARCH =>> vx_target_arch()
@spec
    ensures r@ == compile_arch()

