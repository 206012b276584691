use iec61131std as _;
use rt::p::*;
#[cfg(feature = "heap")]
#[global_allocator]
static COUNTED: rt::alloc::Counted = rt::alloc::Counted;
fn main() {
    let o = rt::parse_opts();
    match o.property.as_str() {
        #[cfg(feature = "strings")]
        "C01" => strings::c01(o),
        #[cfg(feature = "strings")]
        "C02" => strings::c02(o),
        #[cfg(feature = "strings")]
        "C03" => strings::c03(o),
        #[cfg(feature = "strings")]
        "C04" => strings::c04(o),
        #[cfg(feature = "strings")]
        "C05" => strings::c05(o),
        #[cfg(feature = "strings")]
        "C06" => strings::c06(o),
        #[cfg(feature = "strings")]
        "C38" => strings::c38(o),
        #[cfg(feature = "numtext")]
        "C07" => numtext::c07(o),
        #[cfg(feature = "numtext")]
        "C08" => numtext::c08(o),
        #[cfg(feature = "numtext")]
        "C09" => numtext::c09(o),
        #[cfg(feature = "numtext")]
        "C10" => numtext::c10(o),
        #[cfg(feature = "datetime")]
        "C11" => datetime::c11(o),
        #[cfg(feature = "datetime")]
        "C12" => datetime::c12(o),
        #[cfg(feature = "datetime")]
        "C13" => datetime::c13(o),
        #[cfg(feature = "datetime")]
        "C14" => datetime::c14(o),
        #[cfg(feature = "datetime")]
        "C15" => datetime::c15(o),
        #[cfg(feature = "datetime")]
        "C16" => datetime::c16(o),
        #[cfg(feature = "datetime")]
        "C17" => datetime::c17(o),
        #[cfg(feature = "fbs")]
        "C18" => fbs::c18(o),
        #[cfg(feature = "fbs")]
        "C19" => fbs::c19(o),
        #[cfg(feature = "fbs")]
        "C20" => fbs::c20(o),
        #[cfg(feature = "fbs")]
        "C21" => fbs::c21(o),
        #[cfg(feature = "fbs")]
        "C22" => fbs::c22(o),
        #[cfg(feature = "fbs")]
        "C23" => fbs::c23(o),
        #[cfg(feature = "bits")]
        "C24" => bits::c24(o),
        #[cfg(feature = "bits")]
        "C25" => bits::c25(o),
        #[cfg(feature = "bits")]
        "C26" => bits::c26(o),
        #[cfg(feature = "bits")]
        "C27" => bits::c27(o),
        #[cfg(feature = "floats")]
        "C28" => floats::c28(o),
        #[cfg(feature = "floats")]
        "C29" => floats::c29(o),
        #[cfg(feature = "pure")]
        "C30" => pure::c30(o),
        #[cfg(feature = "st")]
        "C31" => st::c31(o),
        #[cfg(feature = "st")]
        "C32" => st::c32(o),
        #[cfg(feature = "st")]
        "C33" => st::c33(o),
        #[cfg(feature = "st")]
        "C34" => st::c34(o),
        #[cfg(feature = "st")]
        "C35" => st::c35(o),
        #[cfg(feature = "heap")]
        "C39" => heap::c39(o),
        #[cfg(feature = "heap")]
        "C36" => heap::c36(o),
        #[cfg(feature = "heap")]
        "C40" => time::c40(o),
        #[cfg(feature = "st")]
        "C37" => prog::c37(o),
        p => {
            eprintln!("unknown property {p:?}");
            std::process::exit(2)
        }
    }
}
